"""C01 - C06: operators of fractions under every policy."""
from gen import *
from verif import POLICIES, REPS, MAX, SIGNED

ARITH = ['plus', 'minus', 'times', 'divides', 'modulus']
CMP = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']
FORMS = ['FF', 'FR', 'RF']

FNS = {'C01': (ARITH[:4], [], True), 'C02': (['modulus'], [], False),
       'C03': (ARITH, [], True), 'C04': ([], CMP, False),
       'C05': (ARITH, [], True), 'C06': (ARITH, CMP, True)}


def small(rep, k, form):
    """Every pair of operands with components up to k."""
    g = grid(rep, k)
    l = [(i, 1) for i in g] if form == 'RF' else [(a, b) for a in g for b in g]
    r = [(i, 1) for i in g] if form == 'FR' else [(a, b) for a in g for b in g]
    return [(*a, *b) for a in l for b in r]


def edges(rep, form, r, n):
    """Pairs from the edges of the representation."""
    e = edge_ints(rep)
    out = []
    for _ in range(n):
        out.append((r.choice(e), 1 if form == 'RF' else r.choice(e),
                    r.choice(e), 1 if form == 'FR' else r.choice(e)))
    return out


def undefined_rows(rep, form, r, n):
    m, s = MAX[rep], rep in SIGNED
    out = []
    for _ in range(n):
        a, b = frac(r, rep, undefined=0.5), frac(r, rep, undefined=0.5)
        if r.random() < 0.3:
            a, b = frac(r, rep, 9, 0.5), frac(r, rep, 9, 0.5)
        if r.random() < 0.2:
            b = (0, b[1])
        if form == 'RF':
            a = (a[0], 1)
        if form == 'FR':
            b = (b[0], 1)
        out.append((*a, *b))
    return out


def int_pair(rep, form, r):
    """A fraction and an integer whose cross product often fits."""
    m, s = MAX[rep], rep in SIGNED
    bits = m.bit_length()
    k = r.randint(1, bits - 1)
    i = logint(r, (1 << k) - 1, s)
    d = logint(r, max(1, m >> k), s, 0)
    x = i * d
    how = r.random()
    if how < 0.4:
        n = x + (r.randint(-2, 2) if s else r.randint(0, 2))     # close to i
        n = max(-m if s else 0, min(m, n))
    else:
        n = logint(r, m if how < 0.7 else 1 << max(1, bits // 2), s)
    f = (n, d)
    if r.random() < 0.15:
        f = blown_up(r, rep, *frac(r, rep, 1000))
        i = logint(r, 1000, s)
    return (*f, i, 1) if form == 'FR' else (i, 1, *f)


def rows_for(c, rep, pol, op, form, n, k):
    r = rng(c.prop, rep, pol, op, form)
    rows = small(rep, k, form)
    if c.prop == 'C03':
        rows = [x for x in rows if not x[1] or not x[3] or not x[2]]
        rows += undefined_rows(rep, form, r, n)
        return rows
    if form == 'FF':
        for _ in range(n):
            p = r.random()
            if c.prop == 'C04' and p < 0.4:
                a, b = near_pair(r, rep)
            elif c.prop == 'C06':
                a, b = (shared_factor_pair if p < 0.45 else unreduced_pair
                        if p < 0.7 else related_pair if p < 0.93 else medium_pair)(r, rep)
            else:
                a, b = any_pair(r, rep)
            rows.append((*a, *b))
    else:
        rows += [int_pair(rep, form, r) for _ in range(n)]
    rows += edges(rep, form, r, n // 2)
    return rows


def run(c):
    arith, cmps, neg = FNS[c.prop]
    exe = c.build('ops', [('ops.cpp', [f'-DREP={t}']) for t in REPS.values()])
    c.model('MC_Policy')
    batches = []
    for rep in REPS:
        for pol in POLICIES:
            main = pol in ('safe_io', 'safe', 'fast')
            if c.thorough:
                n, k = (2500 if main else 1200), (4 if main and rep == 'int' else 3)
            else:
                n, k = (150 if main else 60), (3 if main and rep == 'int' else
                                                2 if rep == 'int' else 1)
            if not cmps or not arith:
                n = n * (2 if len(arith + cmps) > 3 else 6)
            if len(arith + cmps) == 1:
                k += 1
            for op in arith + cmps:
                for form in FORMS:
                    rows = rows_for(c, rep, pol, op, form, n, k)
                    key = f'{op}|{form}|{rep}|{pol}'
                    batches.append((key, dict(
                        fn='arith' if op in ARITH else 'cmp', op=op, form=form,
                        rep=rep, pol=pol, key=key, na=4),
                        ['%d %d %d %d' % x for x in rows]))
            if neg:
                r = rng(c.prop, rep, pol, 'neg')
                rows = [(a, b) for a in grid(rep, 4) for b in grid(rep, 4)]
                rows += [frac(r, rep, undefined=0.1 if c.prop != 'C03' else 1)
                         for _ in range(n // 2)]
                rows += [blown_up(r, rep, *frac(r, rep, 1000)) for _ in range(n // 2)]
                e = edge_ints(rep)
                rows += [(r.choice(e), r.choice(e)) for _ in range(n // 2)]
                for op in ('neg', 'pos'):
                    key = f'{op}|{rep}|{pol}'
                    batches.append((key, dict(fn='sign', op=op, rep=rep, pol=pol,
                                              key=key, na=2),
                                    ['%d %d' % x for x in rows]))
    c.assumptions += [
        'integer representations int, unsigned, long, unsigned long, long long, '
        'unsigned long long; components of magnitude up to the maximum',
        'rows whose intermediate integers (Policy.tla, mid) do not fit the '
        'representation are outside the contract']
    c.trace('TraceOps', exe, batches)
    from checks import form, mix, mixed
    mix.share(c)
    if c.prop == 'C03':
        form.run(c)
        mixed.run(c)
