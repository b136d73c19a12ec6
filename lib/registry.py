"""property id -> rule function"""
import importlib
import meta

def get(pid):
    p = meta.BYID[pid]
    m = importlib.import_module('rules.' + p['mod'])
    return m.PROPS[pid], dict(rule=p['technique_long'], assume=p['assume'], floor=getattr(m, 'FLOOR', {}).get(pid, {}), ir=p.get('ir', True), drivers=getattr(m, 'DRIVERS', (p['mod'],)), split=getattr(m, 'SPLIT', {}).get(pid, False))
