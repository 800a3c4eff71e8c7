"""gen.py: writes properties.jsonl, checks/*.json and MANIFEST.json from the tables in spec/*.py (the one place where properties are stated)."""
import os, sys, json, glob, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []
FED_ASSUME = ['the data of all subgraphs comes from one data graph; subgraphs answer from it as GraphQL prescribes and only what their part of the supergraph lets them answer',
              'values of key and @requires fields are concrete per object (they are hashed by the router)', 'HTTP transport is replaced by an in-process subgraph executor (hook)']
TECH = 'symbolic execution of the compiled code (LLVM IR of /repo) with Z3 deciding branches and assertions; counterexamples replayed natively'
def prop(id, title, statement, over, qtext, why, files, mechanism, runs, bounds, outside, features, assumptions=(), observe=(), level_note='', hook=None, tech=TECH):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism, runs=runs, bounds=bounds, outside=outside, features=features, assumptions=list(assumptions), observe=list(observe), level_note=level_note, hook=hook, tech=tech))
def na(id, title, statement, over, qtext, why, files, mechanism, reason): NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism, reason=reason))
def run(entry, timeout=200, thorough=None, thorough_timeout=3000, reach=(), tier=None, samples=6, **params):
    r = dict(entry=entry, params=params, timeout=timeout, thorough=thorough or {}, thorough_timeout=thorough_timeout, samples=samples)
    if reach: r['reach'] = list(reach)
    if tier: r['tier'] = tier
    return r
for f in sorted(glob.glob(V + '/spec/*.py')):
    exec(compile(open(f).read(), f, 'exec'), globals())
def main():
    with open(V + '/properties.jsonl', 'w') as o:
        for p in sorted(PROPS + NA, key=lambda p: p['id']):
            assert len(p['title']) <= 80, p['title']
            assert p['statement'].count('. ') <= 2, p['statement']
            o.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']], 'observe_at': p.get('observe', []), 'hook_needed': p.get('hook')}}) + '\n')
    os.makedirs(V + '/checks', exist_ok=True)
    ids = set()
    for p in PROPS:
        assert p['id'] not in ids; ids.add(p['id'])
        json.dump({'features': p['features'], 'level': 'model_checking', 'bounds': p['bounds'], 'outside': p['outside'], 'assumptions': p['assumptions'], 'runs': p['runs']}, open(f"{V}/checks/{p['id']}.json", 'w'), indent=1)
    for f in glob.glob(V + '/checks/*.json'):
        if os.path.basename(f)[:-5] not in ids: os.unlink(f)
    import subprocess
    hooks = [l.split()[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines() if 'verification hooks' in l]
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'hooks': {'guard': 'hive_verif', 'enable': 'RUSTFLAGS="--cfg hive_verif"', 'source_commits': hooks},
         'checks': [{'property': p['id'], 'quick_cmd': f"python3 tools/check.py {p['id']}", 'thorough_cmd': f"python3 tools/check.py {p['id']} --thorough", 'technique': p['tech'], 'level': 'model_checking',
                     'level_note': ('All inputs within the bounds, decided by the solver. Bounds: ' + p['bounds'] + ' Outside: ' + p['outside'] + ' Trusted: rustc/LLVM lowering, the symbolic executor (cross-checked by native replay of sampled paths), Z3. ' + p['level_note']).strip()} for p in sorted(PROPS, key=lambda p: p['id'])],
         'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in sorted(NA, key=lambda p: p['id'])]}
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
        for l in open(V + '/properties.jsonl'): jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
    except ImportError: print('jsonschema not available; run with python3-vt')
    print(len(PROPS), 'properties claimed,', len(NA), 'not applicable')
if __name__ == '__main__': main()
