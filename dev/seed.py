"""Turn the planted bugs in dev/seeds.py into seeded/<id>/ and confirm them.
  python3 dev/seed.py make [regex]      write patch.diff, demo, meta.json
  python3 dev/seed.py demo [regex]      demo on a scratch copy without / with the patch
  python3 dev/seed.py test [regex]      apply in /repo, build, stable tests, demo, undo
  python3 dev/seed.py check [regex]     apply in /repo copy, run this property's check (VERIF_REPO)
"""
import sys, os, re, json, subprocess, shutil, tempfile, difflib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = '/repo'
SEEDS = []
DEMO_SH = '''#!/bin/bash
# run with cwd /repo after the build: builds demo.cpp against the library sources and runs it
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
clang++-16 -std=c++20 -g -pthread%s -I"$PWD/include" "$here/demo.cpp" "$PWD"/source/*.cpp -o "$out/demo" || { rmdir "$out"; exit 3; }
timeout %d "$out/demo"
rc=$?
unlink "$out/demo"; rmdir "$out"
exit $rc
'''
def seed(id, prop, edits, needs, breaks, demo, flags='', timeout=100):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags, timeout=timeout))
exec(open(os.path.join(HERE, 'dev', 'seeds.py'), encoding='utf-8').read())

def apply(s, root):
    diff = ''
    for f, old, new in s['edits']:
        p = os.path.join(root, f)
        b = open(p, 'rb').read().decode('utf-8'); crlf = '\r\n' in b
        o, n = (old.replace('\n', '\r\n'), new.replace('\n', '\r\n')) if crlf else (old, new)
        if b.count(o) != 1: raise SystemExit('%s: text found %d times in %s' % (s['id'], b.count(o), f))
        open(p, 'wb').write(b.replace(o, n).encode('utf-8'))

def make(s):
    d = os.path.join(HERE, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    assert not subprocess.run(['git', '-C', REPO, 'status', '--porcelain'], capture_output=True, text=True).stdout.strip()
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(['git', 'clone', '-q', REPO, t + '/r'], check=True)
        apply(s, t + '/r')
        diff = subprocess.run(['git', '-C', t + '/r', 'diff', '--binary'], capture_output=True).stdout
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO_SH % (s['flags'], s['timeout'])); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)

def scratch(s, patched):
    t = tempfile.mkdtemp()
    for x in ('include', 'source'): shutil.copytree(REPO + '/' + x, t + '/' + x)
    if patched: apply(s, t)
    return t

def demo(s):
    out = []
    for patched in (False, True):
        t = scratch(s, patched)
        r = subprocess.run([HERE + '/seeded/' + s['id'] + '/demo.sh'], cwd=t, capture_output=True, text=True)
        out.append(r.returncode); txt = (r.stdout + r.stderr)[-400:]
        shutil.rmtree(t)
    good = out[0] == 0 and out[1] not in (0, 3)
    print('%-28s demo clean=%d patched=%d %s' % (s['id'], out[0], out[1], 'ok' if good else 'BAD'), txt.strip().replace('\n', ' | ')[-200:])

def test(s):
    p = HERE + '/seeded/%s/patch.diff' % s['id']
    subprocess.run(['git', '-C', REPO, 'apply', p], check=True)
    try:
        b = subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True, text=True)
        if b.returncode: print(s['id'], 'BUILD FAILED', b.stdout[-500:]); return
        subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/seed.json'], capture_output=True, text=True)
        j = json.load(open('/tmp/seed.json')); r = subprocess.run([HERE + '/seeded/' + s['id'] + '/demo.sh'], cwd=REPO, capture_output=True, text=True)
        print('%-28s tests failed: %s  demo rc %d %s' % (s['id'], j['failed'], r.returncode, 'ok' if not j['failed'] and r.returncode not in (0, 3) else 'BAD'))
    finally:
        subprocess.run(['git', '-C', REPO, 'checkout', '--', '.'], check=True)

def check(s):
    t = scratch(s, True)
    env = dict(os.environ, VERIF_REPO=t, VERIF_OUT=t)
    r = subprocess.run(['python3', HERE + '/check.py', s['prop'], '--quick'], capture_output=True, text=True, env=env)
    print('%-28s %s rc %d %s' % (s['id'], s['prop'], r.returncode, 'caught' if r.returncode == 1 else 'MISSED'), '\n   '.join((r.stdout + r.stderr).strip().split('\n')[-3:])[-500:])
    shutil.rmtree(t)

if __name__ == '__main__':
    rx = re.compile(sys.argv[2] if len(sys.argv) > 2 else '')
    for s in SEEDS:
        if rx.search(s['id']): globals()[sys.argv[1]](s); sys.stdout.flush()
