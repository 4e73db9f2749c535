"""C25: programs over fraction variables."""
import json
import re
from concurrent.futures import ThreadPoolExecutor
from gen import *
from verif import POLICIES, REPS, MAX, SIGNED, SEED, CORES, CheckError

PAD = 9


def pad(xs):
    xs = [str(x) for x in xs]
    return ' '.join(xs + ['0'] * (PAD - len(xs)))


def generate(c, jobs, own=4):
    """Programs generated by TLC from the specification.  Those of a job only
    read the same variables after the first own ones."""
    def one(j):
        i, (rep, pol, num, depth) = j
        rc, out, gen, _ = c.tlc(
            'GenMachine', 'GenMachine.cfg',
            extra=['-simulate', f'num={num}', '-depth', str(depth + 1), '-seed',
                   str(SEED * 1000 + i)],
            env=dict(GEN_REP=rep, GEN_POL=pol, GEN_DEPTH=str(depth), GEN_OWN=str(own)))
        progs = [json.loads(json.loads(x)[5:]) for x in out.splitlines()
                 if x.startswith('"PROG ')]
        if rc or len(progs) < num // 2:
            raise CheckError(f'GenMachine ended with {rc}: {out[-1500:]}')
        return rep, pol, [[pad(['init'] + [0, 1] * 2 + a + b)] + [pad(i) for i in p]
                          for a, b, p in progs]
    with ThreadPoolExecutor(CORES) as ex:
        return list(ex.map(one, enumerate(jobs)))


def random_program(r, rep, n):
    m, s = MAX[rep], rep in SIGNED
    size = r.choice([9, 30, 1000, int(m ** 0.5), m])
    num = lambda k=None: logint(r, k or size, s, 0.05)
    den = lambda: logint(r, size, s, 0.02)
    R = lambda: r.randint(1, 4)
    A = lambda: r.choice(['plus', 'minus', 'times', 'divides', 'modulus'])
    rows = [pad(['init'] + [x for _ in range(4) for x in (num(), den())])]
    for _ in range(n):
        what = r.choice(['set', 'op', 'op', 'op', 'opa', 'opa', 'opi', 'iop', 'opai', 'un',
                         'sel', 'sel', 'whole', 'set', 'seli', 'isel', 'opac', 'pow',
                         'redenom', 'text', 'via', 'mixed', 'hash', 'float', 'parse'])
        if what == 'set':
            x = ['set', '-', R(), num(), den()]
        elif what == 'op':
            x = ['op', A(), R(), R(), R()]
        elif what == 'opa':
            x = ['opa', A(), R(), R()]
        elif what == 'opi':
            x = ['opi', A(), R(), R(), num(50)]
        elif what == 'iop':
            x = ['iop', A(), R(), num(50), R()]
        elif what == 'opai':
            x = ['opai', A(), R(), num(50)]
        elif what == 'un':
            x = ['un', r.choice(['neg', 'pos', 'abs', 'recip', 'reduce', 'ignore', 'norm',
                                 'reduce', 'copy']) if s else
                 r.choice(['pos', 'abs', 'recip', 'reduce', 'ignore', 'copy']), R(), R()]
        elif what == 'whole':
            x = ['whole', r.choice(['trunc', 'ceil', 'floor', 'round']), R(), R()]
        elif what == 'opac':
            x = ['opac', A(), R(), R(), r.randint(1, 2)]
        elif what == 'pow':
            x = ['pow', '-', R(), num(r.choice([3, 12, 50])), r.randint(-4, 9)]
        elif what == 'redenom':
            x = ['redenom', r.choice(['trunc', 'ceil', 'floor', 'round']), R(), R(), den()]
        elif what == 'parse':
            x = [what, '-', R(), r.randint(0, 999), r.randint(0, 99)]
        elif what in ('text', 'via', 'hash', 'float'):
            x = [what, '-', R(), R()]
        elif what == 'mixed':
            x = ['mixed', '-', R(), R(), R()]
        else:
            x = [what, r.choice(['eq', 'ne', 'lt', 'le', 'gt', 'ge']), R(),
                 *{'sel': (R(), R()), 'seli': (R(), num(50)), 'isel': (num(50), R())}[what], R()]
        rows.append(pad(x))
    return rows


def repeating_program(r, rep, n):
    """A few operations again and again, on operands that resemble those before."""
    m, s = MAX[rep], rep in SIGNED
    top = r.choice([12, 200, int(m ** 0.5), int(m ** 0.5), m])
    few = lambda: frac(r, rep, r.choice([min(9, top), top]))
    ops = r.sample(['plus', 'minus', 'times', 'divides', 'modulus'], r.randint(1, 2))
    rel = r.choice(['eq', 'ne', 'lt', 'le', 'gt', 'ge'])
    mode = r.choice(['trunc', 'ceil', 'floor', 'round'])
    fn = r.choice(['ignore', 'recip', 'copy'] + ['neg', 'abs', 'norm'] * s)
    a, b = few(), few()
    met = [(a, b)]
    old = [(0, 1), (0, 1)]
    rows = [pad(['init'] + [0, 1] * 4)]
    while len(rows) < n:
        for i, x in enumerate((a, b)):
            if x != old[i]:
                rows.append(pad(['set', '-', i + 1, *x]))
        old = [a, b]
        op = r.choice(ops)
        rows.append(pad(['op', op, 3, 1, 2]))
        if r.random() < 0.3:
            rows.append(pad(['sel', rel, 4, 1, 2, 3]))
        if r.random() < 0.2:
            rows.append(pad(['un', 'reduce', 3, 1]))
        if r.random() < 0.2:
            rows.append(pad(['opi', op, 3, 1, b[0]]))
        if r.random() < 0.1:
            rows.append(pad(['iop', op, 3, a[0], 2]))
        if r.random() < 0.2:
            rows.append(pad(['hash', '-', 1, 2]))
        if r.random() < 0.25:
            rows.append(pad(r.choice([
                ['whole', mode, 3, 1], ['redenom', mode, 3, 1, b[1] or 1], ['mixed', '-', 3, 1, 2],
                ['text', '-', 3, 1], ['seli', rel, 4, 1, b[0], 2], ['pow', '-', 3, a[0], b[0] % 9],
                ['un', fn, 3, 1], ['float', '-', 3, 1],
                ['parse', '-', 3, abs(a[0]) % 1000, abs(b[0]) % 100]])))
        how = r.random()
        if how < 0.6:
            a, b = neighbours(r, a, b, top, s)
        elif how < 0.9:
            a, b = r.choice(met)
        else:
            a, b = few(), few()
        met.append((a, b))
    return rows


def run(c):
    exe = c.build('machine', [('machine.cpp', [f'-DREP={t}']) for t in REPS.values()])
    c.model('MC_Machine', 'MC_Machine_deep.cfg' if c.thorough else None)
    # the headroom of a program depends on the policy that runs it
    gen_pols = ['safe_io', 'safe', 'fast', 'fast_io', 'safe_oi', 'fast_on']
    num, depth = (400, 120) if c.thorough else (40, 60)
    jobs = [(rep, pol, num, depth) for rep in ('int', 'long', 'unsigned', 'ullong')
            for pol in (POLICIES if c.thorough else gen_pols)]
    batches = []

    def add(rep, pol, rows, how):
        key = f'machine|{rep}|{pol}'
        batches.append((key, dict(fn='machine', rep=rep, pol=pol, key=key, na=PAD,
                                  prog=len(batches), how=how), rows))
    for rep, pol, progs in generate(c, jobs):
        for rows in progs:
            add(rep, pol, rows, 'specification')
            if rep == 'long' and c.thorough:
                add('llong', pol, rows, 'specification')
    c.log(f'{len(batches)} programs generated from the specification')
    for rep in REPS:
        for pol in POLICIES:
            r = rng('machine', rep, pol)
            for _ in range(60 if c.thorough else 6):
                add(rep, pol, random_program(r, rep, 40), 'random')
            for _ in range(60 if c.thorough else 8):
                add(rep, pol, repeating_program(r, rep, 90), 'repeating')
    c.trace('TraceMachine', exe, batches, whole=True)
