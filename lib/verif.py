"""Machinery shared by all checks: building the executors from the code under
test, running them, validating what they recorded with TLC, model checking,
confirming rejections, evidence."""
import atexit
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('IEME_REPO', '/repo')
SPEC = os.path.join(ROOT, 'spec')
HARNESS = os.path.join(ROOT, 'harness')
TLA = '/opt/veriftools/tla/'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
CORES = min(8, os.cpu_count() or 8)

REPS = {'int': 'int', 'unsigned': 'unsigned', 'long': 'long',
        'ulong': 'unsigned long', 'llong': 'long long',
        'ullong': 'unsigned long long'}
MAX = {'int': 2**31 - 1, 'unsigned': 2**32 - 1, 'long': 2**63 - 1,
       'ulong': 2**64 - 1, 'llong': 2**63 - 1, 'ullong': 2**64 - 1}
SIGNED = {'int', 'long', 'llong'}
POLICIES = ['safe', 'safe_i', 'safe_o', 'safe_io', 'fast', 'fast_i', 'fast_o',
            'fast_io', 'safe_in', 'fast_in', 'safe_on', 'fast_on', 'safe_oi']
UBSAN = ['-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero']


class CheckError(Exception):
    """The check itself could not be carried out."""


class Unbuildable(Exception):
    """The public interface no longer compiles: recorded as a violation."""


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix=f'ieme-{prop}-')
        atexit.register(shutil.rmtree, self.dir, True)
        self.states = self.transitions = 0
        self.traces = self.judged = self.skipped = self.steps = 0
        self.samples = []
        self.notes = []
        self.assumptions = []
        self.rejects = []        # confirmed: dicts
        self.mc = []
        self.known_hit = []
        self._num = None
        self.proved = 0
        self.keys = {}           # judged and skipped calls of each function
        self._lock = threading.Lock()

    def log(self, *a):
        print(f'[{self.prop} {time.time() - self.t0:6.1f}s]', *a, flush=True)

    # ------------------------------------------------------------ building
    def num_classes(self):
        if self._num is None:
            d = os.path.join(self.dir, 'cls')
            os.makedirs(d)
            r = subprocess.run(['javac', '-cp', TLA + 'tla2tools.jar', '-d', d,
                                os.path.join(ROOT, 'java', 'Num.java')],
                               capture_output=True, text=True)
            if r.returncode:
                raise CheckError('javac: ' + r.stderr)
            self._num = d
        return self._num

    def compile(self, jobs):
        """jobs: list of (source, object, flags).  Returns [(ok, stderr)]."""
        def one(j):
            src, obj, flags = j
            # A path of /verif/harness or an absolute one
            src = os.path.join(HARNESS, src)
            cmd = ['g++', '-std=c++20', '-w', '-I' + REPO + '/include',
                   '-I' + HARNESS] + flags + ['-c', src, '-o', obj]
            r = subprocess.run(cmd, capture_output=True, text=True)
            return r.returncode == 0, r.stderr
        with ThreadPoolExecutor(CORES) as ex:
            return list(ex.map(one, jobs))

    def build(self, name, units, opt='-O0', asserts=False):
        """units: list of (source, [flags]).  Links with main.cpp.
        asserts: with the checks of the standard library, which also abort
        where the arguments are outside the contract."""
        jobs = [('main.cpp', f'{self.dir}/{name}_main.o', ['-O1'])]
        for i, (src, flags) in enumerate(units):
            jobs.append((src, f'{self.dir}/{name}_{i}.o', [opt] + ['-D_GLIBCXX_ASSERTIONS'] * asserts + UBSAN + flags))
        self.link_ready(jobs)
        exe = f'{self.dir}/{name}'
        r = subprocess.run(['g++', '-o', exe] + [j[1] for j in jobs],
                           capture_output=True, text=True)
        if r.returncode:
            if 'undefined reference to `' not in r.stderr or 'ieme::' not in r.stderr:
                raise CheckError('link: ' + r.stderr[:4000])
            self.log(f'{name} does not link:\n{r.stderr[:1500]}')
            self.direct('does not link', source=name, error=r.stderr[:3000])
            raise Unbuildable()
        return exe

    def link_ready(self, jobs):
        """Compiles all jobs; an executor that does not compile means that the
        interface the property speaks of cannot be used."""
        failed = False
        for j, (ok, err) in zip(jobs, self.compile(jobs)):
            if ok:
                continue
            if ' error: ' not in err or re.search(
                    'No space left|annot allocate|Killed|internal compiler', err):
                raise CheckError(f'{j[0]} {j[2]}: the compiler failed:\n{err[:4000]}')
            failed = True
            self.log(f'{j[0]} {j[2]} does not compile:\n{err[:1500]}')
            self.direct('does not compile', source=j[0], flags=j[2],
                        error=err[:3000])
        if failed:
            raise Unbuildable()

    # ----------------------------------------------------------- executing
    def execute(self, exe, batches, out, env=None):
        """Runs batches [(key, meta, rows)] on exe, events into file out."""
        def text(bs):
            for key, meta, rows in bs:
                yield '@\t%s\t%s\n' % (key, json.dumps(meta)[:-1])
                yield '\n'.join(rows)
                yield '\n'
        e = dict(os.environ, **(env or {}))
        inp = out + '.in'
        with open(inp, 'w') as f:
            f.writelines(text(batches))
        with open(inp) as fi, open(out, 'w') as fo:
            r = subprocess.run([exe], stdin=fi, stdout=fo, stderr=subprocess.PIPE,
                               env=e, timeout=600)
        os.unlink(inp)
        if r.returncode == 71:
            raise CheckError(r.stderr.decode())
        if r.returncode or not _tail(out).startswith('{"fn":"end"'):
            self._careful(exe, batches, out, text, e)
        _drop_end(out)

    def _careful(self, exe, batches, out, text, env):
        """The executor died: find the calls it died in, one row at a time."""
        env = dict(env, EXEC_CAREFUL='1')
        flat = [(k, m, r) for k, m, rs in batches for r in rs]
        pos, events, deaths = 0, [], 0
        while pos < len(flat):
            r = subprocess.run([exe], input=''.join(
                text([(k, m, [row]) for k, m, row in flat[pos:]])),
                capture_output=True, text=True, env=env)
            got = [x for x in r.stdout.splitlines()
                   if x.endswith(']}') and not x.startswith('{"fn":"end"')]
            events += got
            pos += len(got)
            if pos < len(flat):
                deaths += 1
                k, m, row = flat[pos]
                args = [int(a) if re.fullmatch(r'-?\d{1,9}', a) else a
                        for a in row.split()]
                events.append(json.dumps(dict(m, rows=[args + ['crash', 0]])))
                pos += 1
                if deaths > 5:
                    break
        with open(out, 'w') as f:
            f.write('\n'.join(events) + '\n{"fn":"end","rows":[]}\n')

    def trace(self, module, exe, batches, tag='', shards=CORES, whole=False,
              classify=None, env=None, min_ok=1):
        """Executes the batches and validates what was recorded with the TLA+
        module.  whole: a batch is one behaviour and is not split."""
        parts = [[] for _ in range(shards)]
        if whole:
            load = [0] * shards
            for b in batches:
                i = load.index(min(load))
                parts[i].append(b)
                load[i] += len(b[2])
        else:
            for n, (key, meta, rows) in enumerate(batches):
                step = max(1, -(-len(rows) // shards))
                step = max(step, min(40, len(rows)))
                for i, o in enumerate(range(0, len(rows), step)):
                    parts[(i + n) % shards].append((key, meta, rows[o:o + step]))
        files = []
        t = time.time()
        with ThreadPoolExecutor(shards) as ex:
            fs = []
            for i, p in enumerate(parts):
                if p:
                    f = f'{self.dir}/{module}{tag}.{i}.ndjson'
                    files.append(f)
                    fs.append(ex.submit(self.execute, exe, p, f, env))
            for x in fs:
                x.result()
        t1 = time.time()
        res = self.validate(module, files)
        ok = sum(r['ok'] for r in res)
        skip = sum(r['skip'] for r in res)
        bad = sum(r['bad'] for r in res)
        steps = sum(r['steps'] for r in res)
        self.log(f'{module}{tag}: {ok} accepted, {bad} rejected, {skip} outside '
                 f'the contract, in {steps} records '
                 f'(run {t1 - t:.1f}s, validate {time.time() - t1:.1f}s)')
        self.judged += ok + bad
        self.skipped += skip
        self.traces += len(batches)
        if ok + bad < min_ok:
            raise CheckError(f'{module}{tag}: only {ok + bad} calls judged')
        if files and len(self.samples) < 8:
            self.sample(files[len(self.samples) % len(files)])
        self.confirm(module, exe, res, files, whole, batches, env)
        for f in files:
            os.unlink(f)

    def sample(self, f):
        with open(f) as fh:
            for i, line in enumerate(fh):
                if i == 3:
                    break
        try:
            ev = json.loads(line)
            ev['rows'] = ev['rows'][:2]
            self.samples.append(ev)
        except Exception:
            pass

    # --------------------------------------------------------- validating
    def tlc(self, module, cfg, workers=1, mem='1500m', env=None, extra=(),
            timeout=850, par=True):
        md = tempfile.mkdtemp(prefix='md', dir=self.dir)
        cmd = ['java', '-XX:+UseParallelGC' if workers > 1 else '-XX:+UseSerialGC',
               '-Xmx' + mem, '-Xss64m', '-cp',
               ':'.join([self.num_classes(), TLA + 'tla2tools.jar',
                         TLA + 'CommunityModules-deps.jar']),
               '-Dtlc2.tool.impl.Tool.probabilistic=false',
               '-Djava.io.tmpdir=' + md, '-DTLA-Library=' + self.dir,
               'tlc2.TLC', '-metadir', md, '-nowarning', '-noGenerateSpecTE', '-workers', str(workers),
               '-config', cfg, *extra, module + '.tla']
        r = subprocess.run(cmd, cwd=SPEC, capture_output=True, text=True,
                           env=dict(os.environ, **(env or {})), timeout=timeout)
        shutil.rmtree(md, True)
        m = re.search(r'(\d+) states generated, (\d+) distinct', r.stdout)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        return r.returncode, r.stdout + r.stderr, gen, dist

    def validate(self, module, files):
        cfg = module + '.cfg'
        if not os.path.exists(os.path.join(SPEC, cfg)):
            cfg = 'Trace.cfg'

        def one(f):
            rc, out, gen, dist = self.tlc(
                module, cfg, env={'TRACE_FILE': f, 'PROP': self.prop,
                                  'TIER': self.tier})
            m = re.search(r'<<"SUMMARY", (\d+), (\d+), (\d+), (\d+)>>', out)
            if rc or not m:
                keep = os.path.join(tempfile.gettempdir(), f'ieme-{self.prop}-tlc.log')
                with open(keep, 'w') as fh:
                    fh.write(out)
                raise CheckError(f'TLC on {module} ({f}) ended with {rc}:\n'
                                 + _errors(out))
            with self._lock:
                for k, a, b in re.findall(r'<<"KEY", "([^"]*)", (\d+), (\d+)>>', out):
                    x = self.keys.setdefault(k, [0, 0])
                    x[0] += int(a)
                    x[1] += int(b)
            rej = [(int(a), int(b)) for a, b in
                   re.findall(r'<<"REJECT", (\d+), (\d+)', out)]
            return dict(file=f, steps=int(m[1]), ok=int(m[2]), skip=int(m[3]),
                        bad=int(m[4]), rejects=rej, gen=gen, dist=dist)
        with ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(one, files))
        self.states += sum(r['dist'] for r in res)
        self.transitions += sum(max(0, r['gen'] - 1) for r in res)
        self.steps += sum(r['steps'] for r in res)
        return res

    def confirm(self, module, exe, res, files, whole, batches, env):
        """A rejection counts when the same call is rejected again."""
        picked = []
        for r in res:
            if not r['rejects']:
                continue
            lines = open(r['file']).read().splitlines()
            seen = {}
            for l, k in r['rejects']:
                ev = json.loads(lines[l - 1])
                sig = json.dumps({a: b for a, b in ev.items() if a != 'rows'})
                seen[sig] = seen.get(sig, 0) + 1
                if seen[sig] <= 3 and len(picked) < 60:
                    picked.append((ev, k, lines if whole else None, l))
        if not picked:
            return
        again = []
        for ev, k, lines, l in picked:
            if whole:
                again.append((ev, None))
                continue
            row = ev['rows'][k - 1]
            args = [_arg(a) for a in row[:ev['na']]]
            meta = {a: b for a, b in ev.items() if a != 'rows'}
            again.append(((ev['key'], meta, [' '.join(args)]), row))
        if whole:
            # replay the behaviours that contain a rejected step
            ids = {ev.get('prog') for ev, _ in again}
            bs = [b for b in batches if b[1].get('prog') in ids][:10]
        else:
            bs = [a for a, _ in again]
        f = f'{self.dir}/confirm.ndjson'
        self.execute(exe, bs, f, env)
        r2 = self.validate(module, [f])[0]
        lines = open(f).read().splitlines()
        for l, k in r2['rejects']:
            ev = json.loads(lines[l - 1])
            meta = {a: b for a, b in ev.items() if a != 'rows'}
            rows = [ev['rows'][k - 1]] if k else ev['rows']
            self.rejects.append(dict(module=module, exe=os.path.basename(exe),
                                     event=meta, rows=rows,
                                     batch=next((b for b in bs if whole and
                                                 b[1].get('prog') == ev.get('prog')), None)))
        if r2['bad'] == 0:
            self.notes.append('a rejection did not repeat and was dropped')
            self.log('a rejection did not repeat:', picked[0][0])

    # ------------------------------------------------------ model checking
    def model(self, module, cfg=None, workers=CORES, mem='6g', timeout=800,
              extra=(), env=None, count=True):
        cfg = cfg or module + '.cfg'
        rc, out, gen, dist = self.tlc(module, cfg, workers=workers, mem=mem,
                                      extra=extra, timeout=timeout, env=env)
        if rc:
            raise CheckError(f'model {module} ({cfg}) fails:\n' + _errors(out))
        self.states += dist
        self.transitions += gen
        self.mc.append(dict(module=module, cfg=cfg, states=dist, generated=gen))
        self.log(f'model {module} {cfg}: {dist} distinct states, {gen} generated')
        return out

    def arithmetic(self):
        """The arithmetic the specification is evaluated with is the specified one."""
        with open(os.path.join(SPEC, 'Num.tla')) as f, \
                open(os.path.join(self.dir, 'NumPlain.tla'), 'w') as o:
            o.write(f.read().replace('MODULE Num ', 'MODULE NumPlain ', 1))
        self.model('NumSelf')

    def proofs(self):
        """The theorems of proofs/Proofs.tla about the specification, for all
        integers.  A prover that gives up says nothing about the code."""
        d = os.path.join(self.dir, 'proofs')
        os.makedirs(d)
        for m in ('spec/Frac.tla', 'spec/Policy.tla', 'proofs/Proofs.tla'):
            shutil.copy(os.path.join(ROOT, m), d)
        with open(os.path.join(SPEC, 'Num.tla')) as f:
            num = f.read()
        cut = num.index('RECURSIVE NGcd')
        with open(os.path.join(d, 'Num.tla'), 'w') as f:
            f.write(num[:cut] + r"""
Divides(g, a) == \E k \in Int : a = g * k
NGcd(a, b) == CHOOSE g \in Nat : /\ Divides(g, a) /\ Divides(g, b)
                                /\ \A h \in Nat : Divides(h, a) /\ Divides(h, b) => h <= g
NPow(a, e) == a
=============================================================================
""")
        with open(os.path.join(d, 'Proofs.tla')) as f:
            lines = len(f.readlines())

        def part(first):
            for stretch in ('1', '4'):
                r = subprocess.run(
                    ['timeout', '-k', '5', '400', 'tlapm', '--toolbox', str(first), str(first + 59),
                     '--threads', '1', '--stretch', stretch,
                     '--cache-dir', f'{d}/cache{first}', 'Proofs.tla'],
                    cwd=d, capture_output=True, text=True)
                m = re.search(r'All (\d+) obligations? proved', r.stdout + r.stderr)
                if m:
                    return int(m[1])
            self.log(f'Proofs.tla from line {first}:', (r.stdout + r.stderr)[-400:])
            return None
        why = 'tlapm is missing'
        if shutil.which('tlapm'):
            # the last parts take longest
            with ThreadPoolExecutor(CORES) as ex:
                n = list(ex.map(part, reversed(range(1, lines, 60))))
            if None not in n:
                self.proved = sum(n)
                self.log(f'proofs: all {self.proved} obligations proved')
                return
            why = f'{n.count(None)} of {len(n)} parts'
        self.notes.append('the proofs of Proofs.tla were not completed here: ' + why)
        self.log(self.notes[-1])

    # ------------------------------------------------------------- outcome
    def direct(self, what, **detail):
        """A confirmed violation that is not a row of a trace."""
        self.rejects.append(dict(module='direct', event=dict(what=what), rows=[],
                                 **detail))

    def known(self):
        p = os.path.join(ROOT, 'known-findings.txt')
        ks = []
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                m = re.match(r'known: property=(\S+) match=(\{.*?\}) (.*)', line)
                if m and m[1] == self.prop:
                    ks.append((json.loads(m[2]), m[3]))
        return ks

    def finish(self, level='model_checking'):
        known = self.known()
        left = []
        by_fn = {}
        for k, (a, b) in self.keys.items():
            x = by_fn.setdefault(k.split('|')[0], dict(judged=0, outside=0))
            x['judged'] += a
            x['outside'] += b
        idle = [k for k, v in self.keys.items() if v[0] == 0]
        if not self.rejects:
            none = [f for f, x in by_fn.items() if x['judged'] == 0]
            if none:
                raise CheckError(f'no call of {none} was judged')
        for r in self.rejects:
            for pat, text in known:
                if _matches(r, pat):
                    if text not in self.known_hit:
                        self.known_hit.append(text)
                    break
            else:
                left.append(r)
        for _, text in known:
            print(f'KNOWN-FINDING: property={self.prop} {text}')
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   samples=self.samples[:8] or ['none'],
                   calls_judged=self.judged, calls_outside_contract=self.skipped,
                   calls_by_function=by_fn, functions_without_judged_calls=idle[:40],
                   trace_records=self.steps, models=self.mc,
                   proof_obligations=self.proved, notes=self.notes)
        ev = dict(property=self.prop, tier=self.tier, seed=SEED, level=level,
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 1), violations=len(left))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if left:
            d = os.path.join(ROOT, 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f'{self.prop}.json')
            with open(path, 'w') as f:
                json.dump(left, f, indent=1)
            for r in left[:10]:
                self.log('REJECTED', json.dumps(r)[:600])
            print(f'VIOLATION property={self.prop} replay={path}', flush=True)
            return 1
        self.log(f'held: {self.judged} calls judged, {self.states} states')
        return 0


def _arg(a):
    if isinstance(a, list):
        return 'x' + (''.join('%02x' % c for c in a) or '-')
    return str(a)


def _matches(r, pat):
    ev = dict(r.get('event', {}))
    for k, v in pat.items():
        if k == 'args':
            if not any(row[:len(v)] == v for row in r['rows']):
                return False
        elif ev.get(k) != v:
            return False
    return True


def _errors(out):
    keep = [x for x in out.splitlines()
            if not re.match(r'(Loading|Parsing|Semantic|Linting|Starting|Running|TLC2|Computed|Progress)', x)]
    text = '\n'.join(keep)
    return text[-2500:] if len(text) < 3500 else text[:900] + '\n...\n' + text[-2500:]


def _tail(path):
    with open(path, 'rb') as f:
        f.seek(0, 2)
        n = f.tell()
        f.seek(max(0, n - 200))
        t = f.read().decode('latin1').rstrip('\n')
        return t[t.rfind('\n') + 1:]


def _drop_end(path):
    with open(path, 'rb+') as f:
        f.seek(0, 2)
        n = f.tell()
        k = len(b'{"fn":"end","rows":[]}\n')
        f.seek(n - k)
        assert f.read() == b'{"fn":"end","rows":[]}\n'
        f.truncate(n - k)
