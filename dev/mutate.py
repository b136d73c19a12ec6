#!/usr/bin/env python3
"""Development aid (no check uses it): apply small textual changes to scratch copies of /repo and show which rules react.
mutants.py holds M = [(name, file, old, new, 'E01 E03' | '' for behaviour-preserving)].   usage: mutate.py [name-regex] [-p PROPS]"""
import sys, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, V + '/lib')
g = {}
exec(open(HERE + '/mutants.py', encoding='utf-8').read(), g)
import meta
def run(m):
    name, f, old, new, want = m
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        shutil.copytree('/repo/include', d + '/include'); shutil.copytree('/repo/source', d + '/source')
        p = d + '/' + f; s = open(p, encoding='utf-8-sig', newline='').read()
        crlf = '\r\n' in s
        if crlf: s = s.replace('\r\n', '\n')
        for a, b in (old if isinstance(old, list) else [(old, new)]):
            if s.count(a) < 1: return name, want, None, 'TEXT NOT FOUND'
            s = s.replace(a, b, 1)
        open(p, 'w', encoding='utf-8', newline='').write(s.replace('\n', '\r\n') if crlf else s)
        env = dict(os.environ, VERIF_REPO=d, VERIF_OUT=d)
        hit = []; msg = ''
        ids = PIDS or ([x for x in want.split()] if want and not ALL else [q['id'] for q in meta.PROPS])
        for i in ids:
            r = subprocess.run([sys.executable, V + '/check.py', i, '--quick'], env=env, text=True, capture_output=True, cwd=V)
            if r.returncode == 1:
                hit.append(i); msg = msg or [l for l in r.stdout.split('\n') if l.startswith('  ')][0][:170]
            elif r.returncode: hit.append(i + '?'); msg = msg or (r.stdout + r.stderr)[-300:]
        return name, want, hit, msg
    finally:
        shutil.rmtree(d)
PIDS = sys.argv[sys.argv.index('-p') + 1].split(',') if '-p' in sys.argv else None
ALL = '-a' in sys.argv
rx = sys.argv[1] if len(sys.argv) > 1 and sys.argv[1][0] != '-' else '.'
bad = 0
with ThreadPoolExecutor(int(os.environ.get('MW', 7))) as ex:
    for name, want, hit, msg in ex.map(run, [m for m in g['M'] if re.search(rx, m[0])]):
        ok = hit is not None and (any('?' not in h for h in hit) if want else not hit)
        bad += not ok
        print('%-4s %-34s want[%s] hit%s %s' % ('ok' if ok else 'MISS' if want else 'FALSE', name, want, hit, msg))
print('bad', bad)
