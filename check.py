#!/usr/bin/env python3
"""check.py <ID> [--quick|--thorough] : decide one property from /repo's current sources."""
import sys, os, time, json, re, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get('VERIF_OUT', HERE)      # scratch runs on modified copies write elsewhere
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.setrecursionlimit(20000)
import build, ir, spec, engine, registry

def known(pid):
    """finding lines of known_findings.txt for this property: {key: text}"""
    out = {}
    for L in open(os.path.join(HERE, 'known_findings.txt'), encoding='utf-8'):
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', L.strip())
        if m and m.group(1) == pid:
            out[m.group(2)] = m.group(3)
    return out

def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ev = os.path.join(OUT, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev): os.unlink(ev)
    spec.TIER = tier
    fn, info = registry.get(pid)
    try:
        mod = ir.Module(build.compile_ir(info['drivers'], info.get('split', False))) if info.get('ir', True) else None
        c = spec.Ctx(mod, pid, tier)
        try: fn(c)
        except (spec.Anchor, engine.EngineError, Exception) as x:
            if not c.viol: raise
            print('(analysis stopped after a violation: %s: %s)' % (type(x).__name__, str(x)[:200]))
        if not c.obl:
            raise spec.Anchor('no obligation was generated')
        for rule, need in info.get('floor', {}).items():
            n = sum(v[0] for k, v in c.obl.items() if k.startswith(rule))
            if n < need:
                raise spec.Anchor('rule %s: %d instances, expected at least %d' % (rule, n, need))
    except (spec.Anchor, engine.EngineError, build.BuildError, ir.IRError) as x:
        print('ERROR property=%s analysis could not be carried out: %s: %s' % (pid, type(x).__name__, x))
        return 2
    obl = sum(v[0] for v in c.obl.values()); dis = sum(v[1] for v in c.obl.values())
    kn = known(pid)
    groups = {}
    for v in c.viol:
        groups.setdefault(v['key'], []).append(v)
    new = {k: v for k, v in groups.items() if k not in kn}
    rep = os.path.join(OUT, 'build', 'replay-%s.txt' % pid)
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    if new:
        with open(rep, 'w') as f:
            for k, vs in sorted(new.items()):
                for v in vs[:3]:
                    f.write('rule %s\n  at %s\n  %s\n' % (v['rule'], v['loc'], v['msg']))
                    if v['trace']:
                        f.write('  path:\n' + ''.join('    %s\n' % l for l in v['trace']))
                    f.write('\n')
                if len(vs) > 3: f.write('  ... and %d more paths for the same construct\n\n' % (len(vs) - 3))
    elif os.path.exists(rep):
        os.unlink(rep)
    cov = dict(obligations=obl, discharged=dis,
               explanation='Static analysis of the clang -O0 IR of the current sources; nothing of the library is executed. ' + info['rule'],
               rule=info['rule'],
               rules={k: dict(instances=v[0], discharged=v[1]) for k, v in sorted(c.obl.items())},
               entries=c.entries[:400] + ['%s: applied to %d abstract states' % kv for kv in sorted(c.stepcount.items())], functions_analysed=len(c.funcs), abstract_paths=c.paths, call_sites=c.calls + len(getattr(c, 'calls_set', ())), instructions=c.insts,
               paths_cut_at_loop_bound=c.cut, loop_states_merged=c.pruned, known_findings=sorted(k for k in groups if k in kn),
               functions=sorted(mod.dem.get(f, f)[:160] for f in c.funcs if '4librf' in f or 'resumef' in f or 'drv' in f)[:250] if mod else [],
               samples=c.samples[:6])
    json.dump(dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov,
                   assumptions=info['assume'], wall_s=round(time.time() - t0, 2), violations=len(new)), open(ev, 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d functions, %d abstract paths, %.1fs' % (pid, obl, dis, len(c.funcs), c.paths, time.time() - t0))
    for k in groups:
        if k in kn:
            print('KNOWN-FINDING: property=%s %s' % (pid, kn[k]))
    for k, vs in sorted(new.items()):
        print('  %s at %s: %s' % (vs[0]['rule'], vs[0]['loc'], vs[0]['msg']))
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    return 0

if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
