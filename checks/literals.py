"""C18: fraction literals."""
import itertools
import os
import re
from gen import *
from verif import REPS, MAX, SIGNED
from checks.text import literals, mutated, numbers, hexed

SHAPES = ['', '+', '-', '-+', '+-', '- -', '- - -', '+ +']
SUFFIX = {'int': '', 'unsigned': 'u', 'long': 'L', 'ulong': 'uL', 'llong': 'LL', 'ullong': 'uLL'}


def spellings(r, v):
    """A way to write v."""
    how = r.randint(0, 5)
    s = {0: str(v), 1: str(v), 2: hex(v), 3: bin(v), 4: ('0%o' % v), 5: hex(v).upper().replace('X', 'x')}[how]
    if r.random() < 0.3 and len(s) > 4:
        i = r.randint(3, len(s) - 1)
        s = s[:i] + "'" + s[i:]
    return s


def written(r, rep, n):
    """n fractions as expressions: (C++ expression, row)."""
    m = MAX[rep]
    out = []
    while len(out) < n:
        num = logint(r, r.choice([9, 1000, m]), rep in SIGNED, 0.05)
        v = logint(r, r.choice([9, 1000, m]), False, 0.02)
        sh = r.randint(1, 8)
        if rep not in SIGNED and SHAPES[sh - 1].count('-') % 2:
            continue
        if SHAPES[sh - 1].count('-') and v > MAX['long']:
            continue
        if rep == 'int' and abs(num) > m:
            continue
        a = spellings(r, abs(num))
        # a hexadecimal or octal literal may have an unsigned type
        a = str(abs(num)) if not a[0] in '123456789' and SUFFIX[rep] in ('', 'L', 'LL') else a
        sign = r.choice(['', '', '+']) if num >= 0 else '-'
        out.append((f'{sign}{a}{SUFFIX[rep]} / {SHAPES[sh - 1]}{spellings(r, v)}_fr', (num, sh, v)))
    return out


def generate(c, path, decs, fracs, quots):
    with open(path, 'w') as f:
        for i, t in enumerate(decs):
            f.write(f'struct d{i} {{ template <int> static constexpr auto make() {{ return {t}_dec; }} }};\n')
        f.write('inline constexpr Entry decs[] = {%s};\n' % ','.join(f'entry<d{i}>()' for i in range(len(decs))))
        for rep in REPS:
            for name, rows in (('written', fracs[rep]), ('quot', quots[rep])):
                for i, (e, _) in enumerate(rows):
                    f.write(f'struct {name}{rep}{i} {{ template <int> static constexpr auto make() {{ return {e}; }} }};\n')
                f.write('inline constexpr Entry %s_%s[] = {%s};\n' % (
                    name, rep, ','.join(f'entry<{name}{rep}{i}>()' for i in range(len(rows)))))


def followable(t):
    """No exponent so far out that a power is out of reach of a plain loop."""
    e = re.search(r"[ep][+-]?([0-9']+)$", t.lower())
    return not e or int('0' + e.group(1).replace("'", '')) <= 5000


def run(c):
    c.num_classes()
    t = 6 if c.thorough else 1
    c.model('MC_Denominator', 'MC_Denominator_deep.cfg' if c.thorough else None)
    walks = literals(c, 400 * t, 9)
    r = rng('literals')
    nums = [x for x in numbers(r, 'long', 600 * t)]
    # what a program can spell: floating literals, and integer literals
    good = [x for x in nums if '.' in x or 'p' in x.lower() or ('x' not in x.lower() and 'e' in x.lower())]
    good = [x for x in good if not (x.lower().startswith('0x') and 'p' not in x.lower())]
    decs = [x for x in walks if r.random() < 0.25][:120 * t] + good[:160 * t]
    decs += ['0', '1', '15', '0x15', '0b101', '017', "1'000", '9223372036854775807', '0X1f',
             "0x1'f", '1.0', '.5', '1.', '0.1', '1e0', '0.30', '1.5e-3', '0x.8p0', '0x1.8P+1',
             '9223372036854775807.', '0.000000000000000001', '1e18', '0x1p62', '2.5E+1']
    decs = [x for x in decs if followable(x)]
    fracs = {rep: written(r, rep, 60 * t) for rep in REPS}
    quots = {}
    for rep in REPS:
        rows = []
        for e, (num, sh, v) in written(r, rep, 20 * t):
            n, d = frac(r, rep, 1000)
            rows.append((f'fraction<{REPS[rep]}>({n}, {d}) / ' + e.split(' / ', 1)[1], (n, d, sh, v)))
        quots[rep] = rows
    gen = os.path.join(c.dir, 'literals.inc')
    generate(c, gen, decs, fracs, quots)
    exe = c.build('literals', asserts=True, units=[('literals.cpp', [f'-DREP={x}']) for x in REPS.values()]
                  + [('literals.cpp', [f'-DGENERATED="{gen}"', '-fconstexpr-ops-limit=100000000'])])
    batches = []

    def add(fn, key, na, rows, **meta):
        batches.append((key, dict(meta, fn=fn, key=key, na=na), rows))

    def line(*x):
        return ' '.join(map(str, x))
    add('lit', 'lit', 2, [line(s, v) for s in range(1, 9) for v in
                          list(range(20)) + [logint(r, MAX['ulong'], False) for _ in range(60 * t)]
                          + [2**63 - 1, 2**63, 2**64 - 1, 2**31, 2**32]])
    for rep in REPS:
        m = MAX[rep]
        rows = [line(n, s, v) for n in grid(rep, 4) for s in range(1, 9) for v in range(5)]
        rows += [line(n, s, v) for n in edge_ints(rep) for s in range(1, 9)
                 for v in edge_ints(rep) if v >= 0]
        rows += [line(logint(r, m, rep in SIGNED), r.randint(1, 8),
                      logint(r, r.choice([m, m, MAX['ulong']]), False)) for _ in range(600 * t)]
        if rep in SIGNED:
            rows += [line(-m - 1, s, v) for s in (1, 2, 3, 6) for v in (1, 2, m)]
            rows += [line(1, s, m + 1) for s in (3, 4, 5, 7)]
        add('over', f'over|{rep}', 3, rows, rep=rep)
        rows = [line(n, d, s, v) for n in grid(rep, 3) for d in grid(rep, 3)
                for s in (1, 3) for v in range(4)]
        rows += [line(*frac(r, rep, r.choice([100, 10**4, m]), 0.05), r.randint(1, 8),
                      logint(r, r.choice([9, 10**4, m]), False)) for _ in range(800 * t)]
        add('quot', f'quot|{rep}', 4, rows, rep=rep)
        add('written', f'written|{rep}', 4,
            [line(i, *row) for i, (_, row) in enumerate(fracs[rep])], rep=rep)
        add('writtenquot', f'writtenquot|{rep}', 5,
            [line(i, *row) for i, (_, row) in enumerate(quots[rep])], rep=rep)
    texts = walks + nums + [mutated(r, x) for x in walks + nums]
    texts += [''.join(x) for x in itertools.product("01.'exp+", repeat=4)] if c.thorough else []
    texts = [x for x in texts if '\0' not in x and followable(x)]
    add('dec', 'dec', 1, [hexed(x) for x in texts + ['', ' ', '1', '-1.0', '+1.0', '1.0f', '1.0 ', ' 1.0']])
    for fn in ('spelled', 'const'):
        add(fn, fn, 2, [f'{i} {hexed(x)}' for i, x in enumerate(decs)])
    c.trace('TraceLiteral', exe, batches)
    c.assumptions += [
        'denominators the representation cannot hold and decimal literals whose digits, powers '
        'or result do not fit it are outside the contract',
        'spelled literals: %d decimal, %d fractions, each evaluated by the compiler and by the '
        'program' % (len(decs), sum(len(x) for x in fracs.values()) + sum(len(x) for x in quots.values()))]
