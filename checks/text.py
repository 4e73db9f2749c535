"""C14: text output and input.  C17: floating-point strings."""
import itertools
import json
from gen import *
from verif import POLICIES, REPS, MAX, SIGNED, SEED, CheckError

MAIN = ('safe_io', 'fast', 'safe')


def hexed(codes):
    return 'x' + (''.join('%02x' % ord(c) for c in codes) or '-')


def components(r, rep, n):
    m, s = MAX[rep], rep in SIGNED
    rows = [(a, b) for a in edge_ints(rep) for b in edge_ints(rep)]
    if s:
        rows += [(-m - 1, 1), (1, -m - 1), (-m - 1, -m - 1)]
    rows += [(a, b) for a in grid(rep, 11) for b in grid(rep, 3)]
    rows += [(logint(r, m, s), logint(r, m, s, 0.1)) for _ in range(n)]
    return rows


SPACES = [' ', '\n', '\t', '  ', ' \n ', '\r\n', '\v', '\f', ' \t\n\r\v\f ']


def texts(r, rep, n):
    """Texts to read, most of them no sequences of fractions."""
    m = MAX[rep]

    def num():
        how = r.random()
        if how < 0.5:
            return str(logint(r, r.choice([9, 99, m]), rep in SIGNED))
        if how < 0.6:
            return str(r.choice([m, m + 1, m + 2, m * 10, -m, -m - 1, -m - 2, 10**30]))
        if how < 0.7:
            return r.choice(['', '-', '+', 'x', '.', '1x', '+7', '-0', '007', '0x1f', '1.5',
                             '1e3', '--1', '+-2', "1'0", '1,000', 'a'])
        return str(r.randint(0, 30))
    out = []
    for _ in range(n):
        t = ''
        for i in range(r.randint(1, 4)):
            t += r.choice([' '] * 5 + SPACES + ['']) if i else r.choice([''] * 3 + SPACES)
            t += num()
            t += r.choice(['/'] * 12 + ['', ' /', '/ ', '//', ' ', '|', '/x'])
            t += num()
        t += r.choice(['', '', ' ', '\n', '/', 'x', '/1'])
        if r.random() < 0.1:
            t = t[:r.randint(0, len(t))]
        out.append(t)
    return out


def seq_rows(r, rep, n, count):
    rows = []
    for _ in range(n):
        xs = []
        for _ in range(count):
            m = r.choice([9, 1000, MAX[rep]])
            xs += [logint(r, m, rep in SIGNED), logint(r, m, rep in SIGNED, 0.1)]
        rows.append('%d %s %s' % (r.choice([1, 1, 2, 3, 5, 8, 64]), hexed(r.choice(SPACES)),
                                  ' '.join(map(str, xs))))
    return rows


def turns(r, rep, n):
    """A stream written and read in turns."""
    s = rep in SIGNED
    rows = ['reset 0 0']
    queue = []            # what waits to be read
    space = True          # the last character, if it is unread, is whitespace
    messy = r.random() < 0.3

    def text(t):
        rows.append('text %s 0' % hexed(t))
    while len(rows) < n:
        how = r.random()
        m = r.choice([9, 1000, MAX[rep]])
        if how < 0.5:
            for i in range(r.choice([1, 1, 1, 2, 4, 9])):
                if queue and not space or r.random() < 0.1:
                    text(r.choice(SPACES))
                if r.random() < 0.1:
                    rows.append('int %d 0' % logint(r, m, s))
                    queue.append('int')
                else:
                    rows.append('%s %d %d' % (r.choice(['write', 'write', 'writeraw']),
                                              logint(r, m, s), logint(r, m, s, 0.05)))
                    queue.append('')
                space = False
                if r.random() < 0.3:
                    text(r.choice(SPACES))
                    space = True
        elif how < 0.95 or not messy:
            k = len(queue) + 1 if r.random() < 0.3 else r.choice([1, 1, 2, 3])
            for _ in range(k):
                kind = queue.pop(0) if queue else ''
                rows.append('read%s 0 0' % (kind or r.choice(['', '', 'raw'])))
            rows.append('clear 0 0')
        else:
            if r.random() < 0.7:
                text(r.choice(['x', '1', '/', '1/', '-', ' 1/x', '99999999999999999999/1 ',
                               ' 1/99999999999999999999 ']))
            else:
                rows.append(r.choice(['readint 0 0', 'read 0 0']))
            rows += ['read 0 0'] * r.randint(0, 3)
            if r.random() < 0.7:
                rows.append('reset 0 0')
                queue, space = [], True
    return rows


def run14(c):
    exe = c.build('text', asserts=True, units=[('text.cpp', [f'-DREP={t}']) for t in REPS.values()])
    c.model('MC_Stream', 'MC_Stream_deep.cfg' if c.thorough else None)
    c.model('MC_Channel', 'MC_Channel_deep.cfg' if c.thorough else None)
    batches, histories = [], []
    short = [''.join(x) for k in range(0, 6 if c.thorough else 5)
             for x in itertools.product('10/- x+', repeat=k)]
    for rep in REPS:
        for pol in MAIN + ('raw',):
            r = rng('text', rep, pol)
            n = 4000 if c.thorough else 300

            def add(fn, na, rows, **extra):
                key = f'{fn}|{rep}|{pol}'
                batches.append((key, dict(extra, fn=fn, rep=rep, pol=pol, key=key, na=na), rows))
            rows = ['%d %d' % x for x in components(r, rep, n)]
            add('write', 2, rows)
            add('back', 2, rows)
            ts = texts(r, rep, n * 2)
            if pol == 'safe_io':
                ts += short
            else:
                ts += r.sample(short, 400)
            add('read', 2, ['%d %s' % (r.choice([1, 2, 3, 64]), hexed(t)) for t in ts])
            for k in (1, 2, 3, 5):
                add('seq', 2 + 2 * k, seq_rows(r, rep, n // 4, k), count=k)
            for i in range(120 if c.thorough else 16):
                key = f'turns|{rep}|{pol}'
                histories.append((key, dict(fn='turns', rep=rep, pol=pol, key=key, na=3, prog=len(histories)),
                                  turns(r, rep, 80)))
    c.trace('TraceText', exe, batches)
    c.trace('TraceChannel', exe, histories, whole=True)
    c.assumptions += [
        'streams with default format flags and locale; nothing is promised about texts with '
        'characters between numerator, slash and denominator, nor about a minus sign read '
        'into an unsigned representation (the standard extraction accepts it)']


def literals(c, n, depth):
    """Accepted texts, from walks of the automaton in Literal.tla."""
    out = set()
    for i in range(2):
        rc, text, _, _ = c.tlc('GenLiteral', 'GenLiteral.cfg',
                               extra=['-simulate', f'num={n}', '-depth', str(depth + i * 6),
                                      '-seed', str(SEED * 100 + i)])
        got = [''.join(map(chr, json.loads(json.loads(x)[4:]))) for x in text.splitlines()
               if x.startswith('"LIT ')]
        if rc or len(got) < n:
            raise CheckError(f'GenLiteral ended with {rc}: {text[-1500:]}')
        out.update(got)
    return sorted(out)


def mutated(r, s):
    pool = "0123456789abcdefABCDEF..''eEpPxX+-++-- \t\n\0fFlLuUgG_/:@`\x80\xff,"
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        i = r.randint(0, len(s))
        how = r.random()
        if how < 0.4:
            s = s[:i] + r.choice(pool) + s[i:]
        elif how < 0.65:
            s = s[:i] + s[i + 1:]
        elif how < 0.85:
            s = s[:i] + r.choice(pool) + s[i + 1:]
        elif how < 0.92:
            s = s[:i] + s
        else:
            s = s[:i] + s[max(0, i - 2):i] + s[i:]
    return s


def digits(r, k, base, lead=True):
    """k digits, sometimes with separators."""
    d = '0123456789' if base == 10 else r.choice(['0123456789abcdef', '0123456789ABCDEF'])
    s = ''.join(r.choice(d) for _ in range(k))
    if r.random() < 0.3 and k > 1:
        i = r.randint(1, k - 1)
        s = s[:i] + "'" + s[i:]
    return s


def numbers(r, rep, n):
    """Literals whose value is about as large as the representation allows."""
    m = MAX[rep]
    out = []
    for _ in range(n):
        hexa = r.random() < 0.4
        base = 16 if hexa else 10
        width = len(str(m)) if not hexa else len('%x' % m)
        total = r.randint(1, width)
        w = r.randint(0, total)
        f = r.randint(0, total - w)
        how = r.random()
        if w + f == 0:
            w = 1
        s = digits(r, w, base) if w else ''
        if r.random() < 0.1:
            v = r.choice([m, m + 1, m // 2, m - 1])
            s = '%x' % v if hexa else str(v)
            f = 0
        if r.random() < 0.1:
            s = '0' * r.randint(1, 3) + s
        if f or not s:
            s += '.' + digits(r, max(1, f), base)
        elif how < 0.4:
            s += '.'
        top = 64 if hexa else width
        if hexa or how < 0.6 or '.' not in s:
            e = r.choice([0, 1, 2, r.randint(0, top), r.randint(0, max(1, top - total))])
            s += r.choice('pP' if hexa else 'eE') + r.choice(['', '+', '-']) + str(e)
            if r.random() < 0.1:
                s = s[:-1] + '00' + s[-1]
        out.append(('0x' if r.random() < 0.5 else '0X') + s if hexa else s)
    return out


def run17(c):
    exe = c.build('text', asserts=True, units=[('text.cpp', [f'-DREP={t}']) for t in REPS.values()])
    c.model('MC_Literal', 'MC_Literal_deep.cfg' if c.thorough else None)
    walks = literals(c, 1500 if c.thorough else 250, 9)
    c.log(f'{len(walks)} literals generated from the specification')
    short = [''.join(x) for k in range(0, 6 if c.thorough else 5)
             for x in itertools.product("018.'exEpP+-fa", repeat=k)]
    batches = []
    for rep in REPS:
        for pol in POLICIES:
            r = rng('parse', rep, pol)
            n = 1500 if c.thorough else 250
            ts = [r.choice(walks) for _ in range(n)]
            ts += [mutated(r, r.choice(walks)) for _ in range(n)]
            nums = numbers(r, rep, n)
            ts += nums + [mutated(r, r.choice(nums)) for _ in range(n)]
            ts += [''.join(chr(r.randint(0, 255)) for _ in range(r.randint(0, 6)))
                   for _ in range(20)]
            if pol == 'safe_io' and rep == 'long':
                ts += short
                ts += [mutated(r, x) for x in walks]
                ts += [chr(x) + t for x in range(256) for t in ('', '1.0', '.5')]
                ts += [a + chr(x) + b for x in range(256) for a, b in
                       (('1.', '5'), ('0x1', 'p1'), ('1', ''), ('1e', '1'), ('1', '1.'),
                        ('0x', '1p1'), ('0', '1.5'), ('1e1', '1'))]
            else:
                ts += r.sample(short, 200)
            key = f'parse|{rep}|{pol}'
            batches.append((key, dict(fn='parse', rep=rep, pol=pol, key=key, na=1),
                            [hexed(t) for t in ts]))
    c.trace('TraceText', exe, batches)
    c.assumptions += ['literals whose digits, powers or result do not fit the representation '
                      '(Literal.tla, LitFits) are outside the contract']


def run(c):
    run14(c) if c.prop == 'C14' else run17(c)
