"""Worlds with known content that are changed step by step through entry points, by one thread or by two interleaved ones."""
from spec import *
from engine import Footprint

class Stop(Exception): pass
def guard(fn):
    def g(c):
        try: fn(c)
        except Stop: pass
    return g

class World:
    DRV = 8
    def copy(w):
        n = w.__class__.__new__(w.__class__); n.__dict__.update(w.__dict__); n.st = w.st.fork(); return n
    def check(w, cond, rule, msg, p=None, x=None): return w.c.check(cond, '%s.%s' % (w.pid, rule), '%s: %s' % (w.what, msg), p, x)
    def obj(w, name): return w.c.obj(w.e, w.st, name)
    def paths(w, fn, args, pre=None):
        """all ways fn can go, at least one, each of them clean"""
        w.e.cfg.preempt = pre
        w.st.ex = {k: v for k, v in w.st.ex.items() if k not in ('points', 'points2', 'preempted', 'preempted2') and not (isinstance(k, tuple) and k[0] in ('ret', 'waits'))}
        try: ps = w.c.step(w.e, w.st, fn, args)
        finally: w.e.cfg.preempt = None
        if not w.check(bool(ps), 'completes', '%s never returns' % fn[w.DRV:]): raise Stop()
        for p in ps:
            x = getattr(p, 'bad', None)
            if not w.check(p.status == 'ret' and x is None, 'clean', '%s: %s' % (fn[w.DRV:], x.k if x else p.status), p, x): raise Stop()
        return ps
    def do(w, fn, args):
        ps = w.paths(fn, args)
        w.st = ps[0].st
        return ps[0]
    def ask(w, fn, args): return w.copy().do(fn, args)
    def bool(w, fn, args):
        p = w.ask(fn, args); return p.num(p.ret)

def both(w, a, b, one=None, two=True, limit=400, reduce=False):
    """two threads: a is interrupted by b at every point where it touches shared memory; with two, b is interrupted as well. yields the ends.
    With reduce, a point is left out if what a did since the previous one commutes with everything b does (then the outcome is the same)"""
    w = w.copy(); w.e.cfg.fp = None
    B = [b] if isinstance(b, tuple) else b
    dry = None
    if reduce and not two:
        dry = w.e.cfg.fp = Footprint()
        v = w.copy()
        try:
            if len(v.paths(a[0], a[1], (1 << 30, B))) != 1: dry = None
        finally: w.e.cfg.fp = None
    n = 0; last = None
    while n < limit:
        m = -1
        if last is not None and not dry.conflict(n - 1, last): n += 1; w.c.skipped = getattr(w.c, 'skipped', 0) + 1; continue
        while m < limit:
            v = w.copy()
            if dry: fp = w.e.cfg.fp = Footprint()
            try: ps = v.paths(a[0], a[1], (n, B) + ((m,) if m >= 0 else ()))
            finally: w.e.cfg.fp = None
            if not any(p.st.ex.get('preempted') for p in ps): return
            if m >= 0 and not any(p.st.ex.get('preempted2') for p in ps): break
            if dry: last = fp.B if all(fp.A.get(k) == dry.A.get(k) for k in range(n)) else None
            for p in ps:
                q = v.copy(); q.st = p.st.fork(); q.what = w.what
                yield q, p
            m += 1
            if not two: break
        n += 1
