"""C21: policies in types: what combines, what is the default."""
import os
from concurrent.futures import ThreadPoolExecutor
from gen import *
from verif import REPS, POLICIES, REPO, CORES

TYPES = {'int': 'int', 'unsigned': 'unsigned', 'long': 'long', 'ulong': 'ulong_',
         'llong': 'llong_', 'ullong': 'ullong_', 'short': 'short_'}
NAMED = {'safe': 'safe', 'safe_i': 'safe_reduced_i', 'safe_o': 'safe_reduced_o',
         'safe_io': 'safe_reduced_io', 'fast': 'fast', 'fast_i': 'fast_reduced_i',
         'fast_o': 'fast_reduced_o', 'fast_io': 'fast_reduced_io'}
CPP = dict(NAMED, **{p: p for p in POLICIES if p not in NAMED})
ARITH = {'plus': '+', 'minus': '-', 'times': '*', 'divides': '/', 'modulus': '%'}
CMP = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}
MACROS = ['none', 'SAFE', 'SAFE_REDUCED_I', 'SAFE_REDUCED_O', 'SAFE_REDUCED_IO',
          'FAST', 'FAST_REDUCED_I', 'FAST_REDUCED_O', 'FAST_REDUCED_IO']
HEADERS = ['chrono', 'floating_point', 'fraction', 'fraction_literals', 'fraction_math',
           'fraction_queries', 'hash', 'limits', 'math_utilities', 'mixed_number', 'numbers',
           'ops', 'parse_utilities', 'raw_fraction', 'raw_fraction_math',
           'raw_fraction_queries', 'reduce_mode', 'ieme']


def leaf(p, rep, kind='F'):
    return f'{kind}<D, pol::{CPP[p]}, {TYPES[rep]}>()', [('F', p, rep)]


def tree(r, depth, pols, stray):
    """(C++, tokens) of an arithmetic expression with at least one fraction."""
    if depth == 0 or r.random() < 0.15:
        p = r.choice(pols) if r.random() < stray else pols[0]
        return leaf(p, r.choice(list(REPS)))
    how = r.random()
    e, t = tree(r, depth - 1, pols, stray)
    if how < 0.12:
        return f'(-{e})', t + [('N', '.', '.')]
    if how < 0.27:
        p, rep = r.choice(pols), r.choice(list(REPS))
        return f'fr<D, pol::{CPP[p]}, {TYPES[rep]}>({e})', t + [('V', p, rep)]
    op = r.choice(list(ARITH))
    if how < 0.5:
        i = r.choice(list(TYPES))
        f, u = f'I<D, {TYPES[i]}>()', [('I', i, '.')]
        if r.random() < 0.5:
            (e, t), (f, u) = (f, u), (e, t)
    else:
        f, u = tree(r, depth - 1, pols, stray)
    return f'({e} {ARITH[op]} {f})', t + u + [('O', op, '.')]


def expressions(c, r):
    out = []
    # every pair of policies with every operator
    for p in POLICIES:
        for q in POLICIES:
            reps = [('int', 'int'), ('int', 'long')]
            for a, b in reps if p == q else [r.choice(reps)]:
                (x, s), (y, t) = leaf(p, a), leaf(q, b)
                for op, sym in ARITH.items():
                    out.append((f'{x} {sym} {y}', s + t + [('O', op, '.')]))
                    out.append((f'{leaf(p, a, "L")[0]} {sym}= {y}', s + t + [('A', op, '.')]))
                for op, sym in CMP.items():
                    out.append((f'{x} {sym} {y}', s + t + [('C', op, '.')]))
    for _ in range(6000 if c.thorough else 700):
        pols = r.sample(POLICIES, r.choice([1, 2, 2, 3]))
        stray = r.choice([0, 0.1, 0.4])
        e, t = tree(r, r.choice([1, 2, 2, 3, 4]), pols, stray)
        how = r.random()
        if how < 0.25:
            op = r.choice(list(CMP))
            if r.random() < 0.3:
                i = r.choice(list(TYPES))
                f, u = f'I<D, {TYPES[i]}>()', [('I', i, '.')]
            else:
                f, u = tree(r, 1, pols, stray)
            if r.random() < 0.5:
                e, t, f, u = f, u, e, t
            e, t = f'{e} {CMP[op]} {f}', t + u + [('C', op, '.')]
        elif how < 0.45:
            op = r.choice(list(ARITH))
            x, s = leaf(r.choice(pols[:1] * 3 + pols), r.choice(list(REPS)), 'L')
            e, t = f'{x} {ARITH[op]}= {e}', s + t + [('A', op, '.')]
        out.append((e, t))
    return out


def macro_exe(c, macro):
    return c.build('defaults_' + macro, [('defaults.cpp', [] if macro == 'none'
                                          else [f'-DIEME_DEFAULT_OPS_{macro}'])])


def alone(c):
    """Every header by itself."""
    jobs = []
    for h in HEADERS:
        if not os.path.exists(f'{REPO}/include/ieme/{h}.hpp'):
            continue
        src = os.path.join(c.dir, f'alone_{h}.cpp')
        with open(src, 'w') as f:
            f.write(f'#include <ieme/{h}.hpp>\n#include <ieme/{h}.hpp>\nint alone_{h};\n')
        jobs.append((src, src[:-3] + 'o', []))
    c.link_ready(jobs)
    return len(jobs)


def run(c):
    c.num_classes()
    r = rng('combine')
    heads = alone(c)
    exprs = expressions(c, r)
    parts = 16 if c.thorough else 8
    units = [('combine.cpp', ['-DCONVERT'])]
    batches = []
    where = {}
    for k in range(parts):
        mine = exprs[k::parts]
        gen = os.path.join(c.dir, f'exprs{k}.inc')
        with open(gen, 'w') as f:
            for i, (e, _) in enumerate(mine):
                f.write(f'EXPR({i}, {e})\n')
            f.write('using E = void (*)(Out&);\nE const exprs[] = {%s};\n'
                    % ','.join(f'e{i}<void>' for i in range(len(mine))))
        units.append(('combine.cpp', [f'-DGENERATED="{gen}"', f'-DPART="p{k}"']))
        by = {}
        for i, (e, t) in enumerate(mine):
            by.setdefault(len(t), []).append(' '.join([str(i)] + [w for x in t for w in x]))
            where[f'expr|p{k}', i] = e
        for n, rows in by.items():
            batches.append((f'expr|p{k}', dict(fn='expr', key=f'expr|p{k}', na=1 + 3 * n), rows))
    rows, mrows = [], []
    for p in POLICIES:
        for a in ('int', 'ulong'):
            for q in POLICIES:
                for b in ('int', 'ulong'):
                    rows.append(f'{len(rows)} {p} {a} {q} {b}')
        for q in POLICIES:
            mrows.append(f'{len(mrows)} {p} {q}')
    batches.append(('convert', dict(fn='convert', key='convert', na=5), rows))
    batches.append(('mixed', dict(fn='mixed', key='mixed', na=3), mrows))
    exe = c.build('combine', units)
    c.model('MC_Combine', 'MC_Combine_deep.cfg' if c.thorough else None)
    c.trace('TraceCombine', exe, batches)
    settle(c, where)
    with ThreadPoolExecutor(CORES) as ex:
        exes = list(ex.map(lambda m: macro_exe(c, m), MACROS))
    for m, exe in zip(MACROS, exes):
        bs = [('defaults', dict(fn='defaults', key='defaults', macro=m, na=1), ['0'])]
        for op in ARITH:
            rows = [frac(r, 'int', x) + frac(r, 'int', x) for x in (5, 12, 60) for _ in range(40)]
            bs.append((op, dict(fn='arith', op=op, key=op, macro=m, na=4),
                       ['%d %d %d %d' % x for x in rows]))
        c.trace('TraceCombine', exe, bs, tag='_' + m, shards=1)
    c.assumptions += [f'{len(exprs)} expressions of up to {max(len(t) for _, t in exprs)} operators '
                      f'and operands; {heads} headers compiled alone']


def settle(c, where):
    """An expression overload resolution accepts may still not compile: then it
    is rejected, as it should be."""
    def compiles(e):
        n = abs(hash(e))
        src = os.path.join(c.dir, f'settle{n}.cpp')
        text = e.replace('D, ', 'void, ')
        with open(src, 'w') as f:
            f.write('#define SETTLE\n#include "combine.cpp"\n'
                    'template <typename D, typename P, typename R> fr<D, P, R> const& F() '
                    '{ static fr<D, P, R> x(1, 2); return x; }\n'
                    'template <typename D, typename P, typename R> fr<D, P, R>& L() '
                    '{ static fr<D, P, R> x(1, 2); return x; }\n'
                    'template <typename D, typename R> typename depend<D, R>::type const& I() '
                    '{ static R x = 1; return x; }\n'
                    f'bool run() {{ auto x = {text}; return sizeof x > 0; }}\n')
        return c.compile([(src, src[:-3] + 'o', [])])[0][0]
    keep = []
    for x in c.rejects:
        ev = x.get('event', {})
        row = x['rows'][0] if x['rows'] else []
        if ev.get('fn') == 'expr' and len(row) > ev['na'] + 2 and row[ev['na']] == 'ok' \
                and row[ev['na'] + 2] is True:
            e = where[ev['key'], row[0]]
            if not compiles(e):
                c.notes.append('accepted by overload resolution, rejected by the compiler: ' + e)
                continue
        keep.append(x)
    c.rejects = keep
