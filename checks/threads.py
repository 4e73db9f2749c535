"""C26: programs next to each other."""
import json
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor
from checks.machine import generate, PAD
from gen import rng
from verif import POLICIES, REPS, CORES, CheckError, _drop_end, _tail

THREADS = 4


def build(c, kind, reps, flags, sched, link):
    """The executor with the library instrumented in one of two ways."""
    out = lambda x: f'{c.dir}/{kind}_{x}.o'
    jobs = [('threads.cpp', out('main'), ['-O1'] + (flags if kind == 'race' else [])),
            ('sched.cpp', out('sched'), ['-O1'] + sched)]
    for r in reps:
        jobs.append(('machine.cpp', out(r), ['-O1', '-DTHREADS', f'-DREP={REPS[r]}'] + flags))
    c.link_ready(jobs)
    exe = f'{c.dir}/{kind}'
    r = subprocess.run(['g++', '-pthread', '-o', exe] + link + [j[1] for j in jobs],
                       capture_output=True, text=True)
    if r.returncode:
        raise CheckError('link: ' + r.stderr[:3000])
    return exe


def execute(c, exe, groups, out):
    """groups: [(seed, quantum, rounds, [(key, meta, rows)])]"""
    with open(out + '.in', 'w') as f:
        for seed, quantum, rounds, progs in groups:
            f.write(f'G {seed} {quantum} {rounds}\n')
            for key, meta, rows in progs:
                f.write('@\t%s\t%s\n' % (key, json.dumps(meta)[:-1]))
                f.write('\n'.join(rows) + '\n')
    env = dict(os.environ, TSAN_OPTIONS='exitcode=0:symbolize=0:report_bugs=1:'
               'handle_segv=0:handle_sigfpe=0:handle_abort=0:handle_sigbus=0:handle_sigill=0:'
               'log_path=' + out + '.tsan')
    with open(out + '.in') as fi, open(out, 'w') as fo:
        r = subprocess.run(c.prefix + [exe], stdin=fi, stdout=fo, stderr=subprocess.PIPE, env=env, timeout=700)
    if r.returncode or not _tail(out).startswith('{"fn":"end"'):
        raise CheckError(f'{exe} ended with {r.returncode}: {r.stderr.decode()[-2000:]}')
    _drop_end(out)
    alone = r.stderr.decode().count('does not run alone')
    if alone:
        c.notes.append(f'{alone} programs do not run alone either')
    return alone


def trace(c, exe, groups, tag):
    parts = [groups[i::CORES // 2] for i in range(CORES // 2)]
    files = [f'{c.dir}/threads{tag}.{i}.ndjson' for i, p in enumerate(parts) if p]
    with ThreadPoolExecutor(CORES) as ex:
        list(ex.map(lambda j: execute(c, exe, j[0], j[1]), zip([p for p in parts if p], files)))
    files = [f for f in files if os.path.getsize(f)]
    if not files:
        raise CheckError('no program ran alone')
    res = c.validate('TraceThreads', files)
    bad = set()
    for r in res:
        lines = open(r['file']).read().splitlines() if r['rejects'] else []
        for l, k in r['rejects']:
            ev = json.loads(lines[l - 1])
            bad.add(ev['group'])
            if len(c.rejects) + len(c.pending) < 200:
                c.pending.append(dict(module='TraceThreads', exe=os.path.basename(exe),
                                      event={a: b for a, b in ev.items() if a != 'rows'},
                                      rows=[ev['rows'][k - 1]]))
    return res, files, bad


def judge(c, exe, groups, tag):
    c.pending = []
    res, files, bad = trace(c, exe, groups, tag)
    ok, no = sum(r['ok'] for r in res), sum(r['bad'] for r in res)
    c.log(f'threads {tag}: {ok} steps accepted, {no} rejected, in {len(groups)} groups')
    c.judged += ok + no
    c.traces += sum(len(g[3]) for g in groups)
    if files:
        c.sample(files[0])
    if bad:
        # it counts when one of the groups is rejected again
        first, c.pending = c.pending, []
        again = [g for g in groups if g[3][0][1]['group'] in bad][:24]
        _, _, bad2 = trace(c, exe, [g for g in again for _ in range(3)], tag + 'again')
        if bad2:
            c.rejects += [r for r in c.pending + first if r['event']['group'] in bad2][:40]
        else:
            c.notes.append('a rejection did not repeat and was dropped')
            c.log('a rejection did not repeat', first[0])


def run(c):
    c.model('MC_Threads', 'MC_Threads_deep.cfg' if c.thorough else None)
    if c.thorough:
        c.model('MC_Threads', 'MC_Threads_three.cfg')
    # designs that do not have the property are told from those that have
    for design in ('memo', 'scratch', 'lazy'):
        rc, out, _, dist = c.tlc('MC_Threads', f'MC_Threads_{design}.cfg', workers=2)
        if rc != 12 or 'Invariant Independent is violated' not in out:
            raise CheckError(f'MC_Threads_{design}.cfg ended with {rc}')
        c.mc.append(dict(module='MC_Threads', cfg=f'MC_Threads_{design}.cfg', states=dist,
                         generated=dist, violated='Independent, as it must be'))
    reps = list(REPS) if c.thorough else ['int', 'long', 'unsigned', 'ullong']
    race = build(c, 'race', reps, ['-fsanitize=thread'], [], ['-fsanitize=thread'])
    turns = build(c, 'turns', reps, ['-fsanitize-coverage=trace-pc'], ['-DTURNS'], [])
    c.log('built')
    num, depth = (THREADS * 6, 80) if c.thorough else (THREADS * 2, 40)
    # the headroom of the policy that needs most suffices for all
    jobs = [(rep, pol, num, depth) for rep in reps
            for pol in (POLICIES if c.thorough else ['fast', 'safe', 'safe_io'])]
    made = {}
    for rep, pol, progs in generate(c, jobs, own=2):
        made[rep, pol] = progs
    c.log(f'{sum(map(len, made.values()))} programs generated from the specification')
    sets = {'race': [], 'turns': []}
    n = 0
    for rep in reps:
        for pol in POLICIES:
            r = rng('threads', rep, pol)
            progs = made[rep, pol if (rep, pol) in made else
                         'fast' if pol.startswith('fast') else 'safe_io' if 'i' in pol else 'safe']
            for at in range(0, len(progs) - THREADS + 1, THREADS):
                some = progs[at:at + THREADS]
                # different programs, and one program in every thread
                for kind, ps in (('race', some), ('race', [some[0]] * THREADS), ('turns', some),
                                 ('turns', some[:2]), ('turns', [some[1]] * 2)):
                    n += 1
                    key = f'machine|{rep}|{pol}'
                    sets[kind].append((
                        r.randint(1, 10**9),
                        r.choice([3, 10, 40, 200]) if kind == 'turns' else 0,
                        2,
                        [(key, dict(fn='threads', rep=rep, pol=pol, key='threads|' + key, na=PAD,
                                    prog=i, group=n, schedule=kind), rows)
                         for i, rows in enumerate(ps)]))
    # the race detector needs its addresses free
    for c.prefix in ([], ['setarch', '-R']):
        if subprocess.run(c.prefix + [race], stdin=subprocess.DEVNULL, capture_output=True).returncode == 0:
            judge(c, race, sets['race'], 'race')
            break
    else:
        c.notes.append('the race detector does not start here: races were not looked for')
        c.log(c.notes[-1])
    c.prefix = []
    judge(c, turns, sets['turns'], 'turns')
