#!/usr/bin/env python3
"""setup_cmd: nothing is cached between runs; this only makes sure the tools
the checks need are present and every specification module parses."""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = '/opt/veriftools/tla/'
for t in ('java', 'javac', 'g++'):
    if not shutil.which(t):
        sys.exit('missing tool: ' + t)
spec = os.path.join(HERE, 'spec')
mods = sorted(f for f in os.listdir(spec) if f.endswith('.tla'))
with tempfile.TemporaryDirectory() as tmp:
    # NumSelf compares Num with a copy of itself that no override evaluates
    with open(os.path.join(spec, 'Num.tla')) as f, open(os.path.join(tmp, 'NumPlain.tla'), 'w') as o:
        o.write(f.read().replace('MODULE Num ', 'MODULE NumPlain ', 1))
    for m in mods:
        shutil.copy(os.path.join(spec, m), tmp)
    r = subprocess.run(
        ['java', '-Djava.io.tmpdir=' + tmp, '-cp', TLA + 'tla2tools.jar:' + TLA + 'CommunityModules-deps.jar',
         'tla2sany.SANY'] + mods, cwd=tmp, capture_output=True, text=True)
    if r.returncode or '***Parse Error***' in r.stdout or 'rror' in r.stderr:
        print(r.stdout[-3000:], r.stderr[-3000:])
        sys.exit(1)
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
print(f'{len(mods)} specification modules parse')
