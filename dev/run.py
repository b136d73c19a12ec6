import sys,time,importlib; sys.path.insert(0,'/verif/lib')
import build, ir, spec
mod=importlib.import_module("rules."+sys.argv[1]);ms={}
def module(sp):
    if sp not in ms: ms[sp]=ir.Module(build.compile_ir(getattr(mod,"DRIVERS",(sys.argv[1],)), sp))
    return ms[sp]
mod=importlib.import_module('rules.'+sys.argv[1])
V='-v' in sys.argv
ids=[a for a in sys.argv[2:] if a[0]!='-']
for pid in ids or mod.PROPS:
    t=time.time(); c=spec.Ctx(module(getattr(mod,'SPLIT',{}).get(pid,False)),pid)
    try: mod.PROPS[pid](c)
    except spec.Anchor as x: print('ANCHOR',x)
    print(pid,'obl',sum(v[0] for v in c.obl.values()),'rules',len(c.obl),'viol',len(c.viol),'paths',c.paths,'insts',c.insts,'cut',c.cut,'%.1fs'%(time.time()-t))
    seen=set()
    for v in c.viol:
        if v['key'] in seen: continue
        seen.add(v['key'])
        print('  V',v['rule'],v['loc'],v['msg'])
        if V:
            for l in v['trace'][-14:]: print('       ',l[:220])
