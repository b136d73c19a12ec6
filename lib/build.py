"""Translate /repo's current sources (plus the entry-point file) to LLVM IR with clang's front end."""
import os, re, subprocess, hashlib, glob, sys, tempfile
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = 'clang++-18'; OPT = 'opt-18'
FLAGS = ['-std=gnu++20', '-g', '-O0', '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-S', '-pthread', '-w', '-fno-discard-value-names', '-fstandalone-debug']

class BuildError(Exception):
    pass

def unit(drivers=None):
    src = ['#include <type_traits>', '#include "librf/librf.h"', 'extern "C" void drv_nothing() {}']
    for f in sorted(glob.glob(REPO + '/source/*.cpp')):
        src.append('#include "%s"' % f)
    for f in sorted(glob.glob(HERE + '/driver/*.inc')):
        if drivers is not None and os.path.basename(f)[:-4] not in drivers: continue
        src.append('#include "%s"' % f)
    return '\n'.join(src) + '\n'

def key():
    h = hashlib.sha256()
    for d in (REPO + '/include', REPO + '/source', HERE + '/driver'):
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    h.update(' '.join(FLAGS).encode())
    return h.hexdigest()[:24]

def compile_ir(drivers=('event',), split=False):
    """all entry points in one unit; if some no longer compile, only the ones this rule needs"""
    f = compile_base(drivers)
    return split_coroutines(f) if split else f

def split_coroutines(src):
    """the same unit with every coroutine in the form the machine runs it: a ramp, a resume and a destroy function on an explicit frame;
    locals whose address is never taken become registers"""
    dst = src[:-3] + '.cm.ll'
    if os.path.exists(dst): return dst
    t = open(src).read()
    t = re.sub(r'@llvm\.coro\.(resume|destroy|done|promise)\(', r'@vf.coro.\1(', t)      # operations on handles stay visible to the analysis
    fd, tmp = tempfile.mkstemp(dir=os.path.dirname(src), suffix='.tmp'); os.write(fd, t.encode()); os.close(fd)
    r = subprocess.run([OPT, '-S', '-passes=coro-early,cgscc(coro-split),coro-cleanup,function(mem2reg)', tmp, '-o', tmp + '2'], capture_output=True, text=True)
    os.unlink(tmp)
    if r.returncode: raise BuildError('opt failed:\n' + r.stderr[:2000])
    os.replace(tmp + '2', dst)
    return dst

def compile_base(drivers):
    out = os.path.join(os.environ.get('VERIF_OUT', HERE), 'build'); os.makedirs(out, exist_ok=True)
    k = key(); bad = os.path.join(out, 'nb-' + k)
    if not os.path.exists(bad):
        try:
            return compile_unit(out, k, None)
        except BuildError:
            open(bad, 'w').close()
    return compile_unit(out, k + '-' + '-'.join(sorted(drivers)), drivers)

def compile_unit(out, k, drivers):
    dst = os.path.join(out, 'u-%s.ll' % k)
    if os.path.exists(dst):
        return dst
    tmp = tempfile.mkdtemp(dir=out)
    cpp = os.path.join(tmp, 'u.cpp')
    open(cpp, 'w').write(unit(drivers))
    cmd = [CXX] + FLAGS + ['-I' + REPO + '/include', cpp, '-o', os.path.join(tmp, 'u.ll')]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        os.unlink(cpp); os.rmdir(tmp)
        raise BuildError('clang failed:\n' + r.stderr[:4000])
    for f in glob.glob(out + '/u-*.ll'):
        try:
            if os.path.getmtime(f) < os.path.getmtime(cpp) - 600: os.unlink(f)
        except OSError:
            pass
    os.replace(os.path.join(tmp, 'u.ll'), dst)
    os.unlink(cpp); os.rmdir(tmp)
    return dst
