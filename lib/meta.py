"""The properties, as one table: properties.jsonl and MANIFEST.json are generated from it (python3 lib/meta.py)."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUST = ['the clang-18 front end (-std=gnu++20, -O0, libstdc++ 13) translates /repo\'s sources faithfully; the analysed unit is all of source/*.cpp plus explicit instantiations in /verif/driver',
         'the transfer functions in lib/models.py describe the C++ standard library (mutex, atomics, shared_ptr, containers, coroutine intrinsics) correctly',
         'loops are followed for a bounded number of iterations and then merged at states already seen; paths cut at the bound are counted in the evidence']
METHOD = 'path-sensitive typestate / dataflow analysis over the LLVM IR of the current sources'
LONG = 'Abstract interpretation (no execution, no solver) of every path of the listed entry points, with all private helpers inlined, over symbolic initial states; each path must satisfy the outcome contract of the property: '
NOTE = 'Every path the abstract interpreter sees of the code behind the property satisfies its contract, for all inputs and for all interleavings as far as atomicity follows from lock regions and single atomic steps. Trusts clang\'s front end, the library models and the loop bound; does not show liveness or timing.'

PROPS = []
NA = []
def P(id, title, statement, over, text, why, files, mechanism, mod, contract, technique=METHOD, assume=(), note=NOTE, state=None, observe=None, ir=True):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, mod=mod,
             technique=technique, technique_long=LONG + contract if technique == METHOD else contract, assume=TRUST + list(assume), note=note, state=state, observe=observe, ir=ir)
    PROPS.append(d)
    return d

def N(id, title, statement, over, text, why, files, mechanism, reason):
    assert len(title) <= 80, (id, len(title))
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, reason=reason))

exec(compile(open(os.path.join(HERE, 'lib', 'props.txt'), encoding='utf-8').read(), 'props.txt', 'exec')) if os.path.exists(os.path.join(HERE, 'lib', 'props.txt')) else None
BYID = {p['id']: p for p in PROPS}

def mech(l):
    return [dict(name=a, where=b) for a, b in l]

def line(p):
    a = dict(files=p['files'], mechanism=mech(p['mechanism']))
    if p.get('observe'): a['observe_at'] = p['observe']
    return dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a)

def design():
    """DESIGN.md = lib/design.md with the tables filled in"""
    t = open(os.path.join(HERE, 'lib', 'design.md'), encoding='utf-8').read()
    rows = []
    for p in sorted(PROPS, key=lambda p: p['id']):
        rows.append('### %s - %s\n\n* Statement: %s\n* Quantifier: %s\n* Decided by `lib/rules/%s.py`: %s\n* Why tests cannot: %s\n%s' % (p['id'], p['title'], p['statement'], p['text'], p['mod'], p['technique_long'].split('outcome contract of the property: ')[-1], p['why'],
            '* Bounds and assumptions: %s\n' % '; '.join(p['assume'][len(TRUST):]) if p['assume'][len(TRUST):] else ''))
    kf = [l.strip() for l in open(os.path.join(HERE, 'known_findings.txt'), encoding='utf-8')]
    fx = ['* %s (`%s`): %s' % re.match(r'fixed: property=(\S+) (\S+) (.*)', l).groups() for l in kf if l.startswith('fixed:')]
    fn = ['* %s, key `%s`: %s' % re.match(r'finding: property=(\S+) key=(\S+) (.*)', l).groups() for l in kf if l.startswith('finding:')]
    sd = []
    for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))) if os.path.isdir(os.path.join(HERE, 'seeded')) else []:
        j = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json'), encoding='utf-8'))
        sd.append('* `%s` - caught by %s; needs %s' % (d, j['property'], j['needs']))
    mu = open(os.path.join(HERE, 'dev', 'mutants.py'), encoding='utf-8').read()
    for k, v in (('@TABLE@', '\n'.join(rows)), ('@FIXED@', '\n'.join(fx)), ('@FINDINGS@', '\n'.join(fn)), ('@SEEDS@', '\n'.join(sd)), ('@NMUT@', str(len(re.findall(r'^m\(', mu, re.M))))): t = t.replace(k, v)
    if sd: open(os.path.join(HERE, 'DESIGN.md'), 'w', encoding='utf-8').write(t)

def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in sorted(PROPS + NA, key=lambda p: p['id']):
            f.write(json.dumps(line(p), ensure_ascii=False) + '\n')
    m = dict(version=1, setup_cmd='python3 /verif/setup.py', checks=[], not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NA],
             notes='Static analysis only: every check reads /repo\'s current sources (through clang\'s IR) and never executes the library. No hooks in /repo are needed.')
    for p in sorted(PROPS, key=lambda p: p['id']):
        m['checks'].append(dict(property=p['id'], quick_cmd='python3 /verif/check.py %s --quick' % p['id'], thorough_cmd='python3 /verif/check.py %s --thorough' % p['id'],
                                evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='other', level_note=p['note']))
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8'), indent=1, ensure_ascii=False)
    design()
    print(len(PROPS), 'claimed', len(NA), 'not applicable')

if __name__ == '__main__':
    main()
