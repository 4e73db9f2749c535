"""C24: the compiler and the program agree."""
import os
from gen import *
from verif import POLICIES, REPS, MAX, SIGNED
from checks import ops, form, mixed, mix, chrono, literals
from checks.text import hexed, numbers, mutated

TYPE = {'safe': 'safe', 'safe_i': 'safe_reduced_i', 'safe_o': 'safe_reduced_o',
        'safe_io': 'safe_reduced_io', 'fast': 'fast', 'fast_i': 'fast_reduced_i',
        'fast_o': 'fast_reduced_o', 'fast_io': 'fast_reduced_io', 'safe_in': 'safe_in',
        'fast_in': 'fast_in', 'safe_on': 'safe_on', 'fast_on': 'fast_on', 'safe_oi': 'safe_oi'}
FORM = {'abs': 'absolute', 'round': 'rounding', 'redenom': 'redenom', 'pow': 'power',
        'pow2': 'power2', 'tofloat': 'to_fl'}


def form_expr(key):
    f, rep, pol = key.split('|')
    F = 'raw_fraction<rep_t>' if pol == 'raw' else f'fraction<rep_t, pol::{TYPE[pol]}>'
    if f in FORM:
        return f'Fns<pol::{TYPE[pol]}>::{FORM[f]}'
    return {'forms': f'forms<{F}>', 'queries': f'queries<{F}>', 'ident': f'ident<{F}, {F}>',
            'ident2': f'ident<{F}, fraction<rep_t, pol::fast>>'}[f]


def mixed_expr(key):
    f, W, F, *G = key.split('|')[:-1]
    F = REPS[F]
    G = REPS[G[0]] if G else F
    return {'add': f'add<{F}, {G}, {F}>', 'add2': f'add<{F}, rep_t, {G}>',
            'add3': f'add<{F}, {G}, {G}>', 'from': f'from<{F}, {G}>',
            'addfrac': f'addfrac<{F}, {G}>', 'addint': f'addint<{F}, {G}>'}.get(f, f'{f}<{F}>')


NARROW = {'short': 'short', 'ushort': 'unsigned short', 'schar': 'signed char'}


def mix_expr(key):
    p = key.split('|')
    if p[0] in ('conv',):
        return f'conv<{REPS[p[2]]}>'
    if p[0] == 'basics':
        return 'basics'
    op = p[0][:-1] if p[0].endswith('a') else p[0]
    if len(p) == 4:
        return f'{op}_{p[1]}'
    R = dict(REPS, **NARROW)[p[3]]
    return f'{op}_{p[1]}<{R}>'


def chrono_expr(key):
    p = key.split('|')
    return f'{p[0]}<{", ".join(p[3:])}>'


def args(row):
    """A row's arguments in C++, and the 64-bit words of numbers."""
    out = []
    for a in row.split():
        v = int(a)
        out.append(f'{v}ull' if v > 2**63 - 1 else f'{v}ll' if v > -2**63 else '(-9223372036854775807ll-1)')
    return ','.join(out)


class Unit:
    """A source file of tables over the executors of one source."""

    def __init__(self, c, of, source, flags, expr):
        self.c, self.of, self.source, self.flags, self.expr = c, of, source, flags, expr
        self.name = '_'.join([of] + [f.split('=')[-1].replace(' ', '') for f in flags])
        self.decl, self.regs, self.batches, self.n = [], [], [], 0

    def add(self, key, meta, rows, write=args):
        if not rows:
            return
        i, e = self.n, self.expr(key)
        self.n += 1
        name = f'{self.name}|{key}'
        cells = ','.join(f'ex::row<f{i},{write(x)}>()' for x in rows)
        self.decl.append(f'constexpr ex::CFn f{i} = {e};\nconstexpr COut const* t{i}[] = {{{cells}}};\n'
                         f'void b{i}(Args const& a, Out& o) {{ ex::both<t{i}, {e}>(a, o); }}\n')
        self.regs.append(f'reg("{name}", b{i});')
        meta = dict(meta, of=self.of, key=name, na=meta['na'] + 1)
        self.batches.append((name, meta, [f'{k} {x}' for k, x in enumerate(rows)]))

    def unit(self):
        p = os.path.join(self.c.dir, self.name + '.inc')
        with open(p, 'w') as f:
            f.write('namespace {\n%s\nvoid tables() {\n%s\n}\nRegistrar const rt(tables);\n}\n'
                    % (''.join(self.decl), '\n'.join(self.regs)))
        return ('constant.cpp', self.flags + [f'-DSOURCE="{self.source}"', f'-DGENERATED="{p}"',
                                              '-ftemplate-depth=2000', '-fconstexpr-ops-limit=200000000'])


def some(r, rows, n):
    return rows if len(rows) <= n else r.sample(rows, n)


def of_ops(c, n):
    out = []
    for rep in REPS:
        u = Unit(c, 'ops', 'ops.cpp', [f'-DREP={REPS[rep]}'], lambda key: (
            lambda p: f'Ops<pol::{TYPE[p[-1]]}>::{p[0]}' + (f'_{p[1]}' if len(p) == 4 else ''))(key.split('|')))
        for pol in POLICIES:
            r = rng('const', rep, pol)
            for op in ops.ARITH + ops.CMP:
                for f in ops.FORMS:
                    rows = ops.rows_for(c, rep, pol, op, f, 4 * n, 1)
                    key = f'{op}|{f}|{rep}|{pol}'
                    u.add(key, dict(fn='arith' if op in ops.ARITH else 'cmp', op=op, form=f,
                                    rep=rep, pol=pol, na=4),
                          ['%d %d %d %d' % x for x in some(r, rows, n)])
            for op in ('neg', 'pos'):
                u.add(f'{op}|{rep}|{pol}', dict(fn='sign', op=op, rep=rep, pol=pol, na=2),
                      ['%d %d' % frac(r, rep, undefined=0.1) for _ in range(n)])
        out.append(u)
    return out


def of_form(c, n):
    us = {rep: Unit(c, 'form', 'form.cpp', [f'-DREP={t}'], form_expr) for rep, t in REPS.items()}
    for p in ('C07', 'C08', 'C09', 'C10', 'C11', 'C16'):
        for key, meta, rows in form.batches_for(c, p):
            r = rng('const', key)
            if meta['fn'] == 'pow':       # a plain loop stays within the compiler's limits
                rows = [x for x in rows if abs(int(x.split()[1])) < 1000]
            us[meta['rep']].add(key, meta, some(r, rows, n * (8 if p in ('C09', 'C10') else 5)))
    return list(us.values())


def of_parts(c, n, of, source, flags, expr, batches, rep_of, skip=()):
    """Units by representation and policy; what is not wanted here is left out."""
    us = {}
    for key, meta, rows in batches:
        k = (rep_of(key, meta), meta['pol'])
        if key.split('|')[0] in skip:
            continue
        if k not in us:
            us[k] = Unit(c, of, source, [f'-DREP={REPS[k[0]]}', f'-DPOL={TYPE[k[1]]}'] + flags, expr)
        us[k].add(key, meta, some(rng('const', key), rows, n))
    return list(us.values())


def of_text(c, n):
    out = []
    for rep in REPS:
        u = Unit(c, 'text', 'parse.cpp', [f'-DREP={REPS[rep]}'],
                 lambda key: f'parse<pol::{TYPE[key.split("|")[2]]}>')
        for pol in POLICIES:
            r = rng('const', 'text', rep, pol)
            xs = numbers(r, rep, 6 * n)
            xs += [mutated(r, x) for x in xs[:3 * n]]
            xs = [x for x in xs if '\0' not in x]
            u.add(f'parse|{rep}|{pol}', dict(fn='parse', rep=rep, pol=pol, na=1), [hexed(x) for x in xs],
                  lambda x: 'Txt("%s")' % ''.join('\\%03o' % int(x[i:i + 2], 16)
                                                  for i in range(1, len(x) - 1, 2) if x != 'x-'))
        out.append(u)
    return out


def run(c):
    c.num_classes()
    c.model('MC_Policy')
    n = 24 if c.thorough else 4
    pols = ('safe_io', 'safe', 'fast')
    keep = list(REPS) if c.thorough else None
    turn = {rep: pols[i % 3] for i, rep in enumerate(REPS)}

    def chosen(batches, rep_of, every):
        """The quick check takes one policy of each representation."""
        out = []
        for i, (key, meta, rows) in enumerate(batches):
            if keep or (turn[rep_of(key, meta)] == meta['pol'] and rng('pick', key).random() < every):
                out.append((key, meta, rows))
        return out
    W = lambda key, meta: meta['W']
    L = lambda key, meta: key.split('|')[1 if key.split('|')[0] in ('conv', 'basics') else 2]
    R = lambda key, meta: meta['rep']
    units = of_ops(c, n) + of_form(c, n) + of_text(c, n)
    mb = [b for b in mixed.batches_for(c, 'C12') + mixed.batches_for(c, 'C03')
          if b[0].split('|')[0] != 'sum' and b[1]['pol'] in pols]
    for i, part in enumerate(split(chosen(mb, W, 0.6))):
        units += of_parts(c, n, 'mixed', 'mixed.cpp', [], mixed_expr, part, W)
    three = {p: mix.POLS[p] for p in pols}
    units += of_parts(c, n, 'mix', 'mix.cpp', ['-DMIX_OPS', '-DMIX_CONV'], mix_expr,
                      chosen([b for b in mix.batches_for(c, True, False, three) if b[1]['fn'] != 'ratio'],
                             L, 0.5), L)
    units += of_parts(c, n, 'mix', 'mix.cpp', ['-DMIX_COMPOUND'], mix_expr,
                      chosen(mix.batches_for(c, False, False, three), L, 0.7), L)
    cb = [b for b in chrono.batches_for(c, 6, 14) if b[0].split('|')[0] not in ('clock', 'own')]
    units += of_parts(c, n, 'chrono', 'chrono.cpp', [], chrono_expr, chosen(cb, R, 0.6), R)
    exe = c.build('constant', [u.unit() for u in units])
    c.trace('TraceConst', exe, [b for u in units for b in u.batches])
    c.assumptions += [
        'g++ as the compiler; %d calls evaluated by it and by the program' %
        sum(len(b[2]) for u in units for b in u.batches)]
    literals.run(c)


def split(batches):
    """The undefined and the defined rows of one function in one table."""
    both = {}
    for key, meta, rows in batches:
        if key in both:
            both[key][2].extend(rows)
        else:
            both[key] = (key, meta, list(rows))
    return [list(both.values())]
