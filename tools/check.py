"""check.py PROPERTY: decides one property on /repo's current tree.

For every harness entry of the property (checks/<id>.json) the engine executes the harness together with the real code
symbolically and decides every branch and assertion with Z3. Violations are replayed natively before they are reported.
exit 0: held on everything explored; 1: VIOLATION; 2: no answer."""
import os, sys, json, subprocess, time, re, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
V = build.V

def demangle(names):
    if not names: return []
    for exe in ('/usr/lib/llvm-18/bin/llvm-cxxfilt', 'llvm-cxxfilt-18', 'llvm-cxxfilt'):
        try:
            r = subprocess.run([exe], input='\n'.join(names), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
            if r.returncode == 0: return r.stdout.splitlines()
        except (OSError, subprocess.TimeoutExpired): pass
    return names

def known_findings(prop):
    out = {}
    p = V + '/known_findings.jsonl'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                k = json.loads(l)
                if k['property'] == prop and not k.get('fixed'): out[k['id']] = k
    return out

def replay(exe, entry, text, params):
    with tempfile.NamedTemporaryFile('w', suffix='.in', delete=False) as f: f.write(text)
    try:
        r = subprocess.run([exe, entry, f.name] + [f'{k}={v}' for k, v in params.items()], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=60, env=build.env(RUST_BACKTRACE='0'))
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -1, 'timeout'
    finally: os.unlink(f.name)

REPO_FN = re.compile(r'(hive_router|graphql_tools|hive_console_sdk)(\[\w+\])?::')

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = json.load(open(f'{V}/checks/{prop}.json'))
    t0 = time.time()
    feats = spec['features']
    try:
        eng = build.engine()
        ir = build.ir_for(feats, verbose=True)
    except build.BuildError as e:
        print(f'check {prop}: cannot build: {e}'); return 2
    known = known_findings(prop)
    res, viol, errors, kf = [], [], [], {}
    tot = {}
    fns = {}
    samples_ok = 0; samples_bad = []
    out_samples = []
    native_exe = build.native_cached()  # present when setup built it for this tree
    if '--native' in sys.argv and not native_exe: native_exe = build.native(feats, True)
    for run in spec['runs']:
        if tier == 'quick' and run.get('tier') == 'thorough': continue
        params = dict(run.get('params', {}))
        if tier == 'thorough': params.update(run.get('thorough', {}))
        out = f'{build.B}/out-{prop}-{run["entry"]}-{os.getpid()}.json'
        timeout = run.get('timeout', 240) if tier == 'quick' else run.get('thorough_timeout', 3000)
        cmd = [eng, '-e', run['entry'], '-o', out, '-j', str(os.cpu_count() or 4), '--timeout', str(timeout), '--samples', str(run.get('samples', 8)), '--max-paths', str(run.get('max_paths', 4000000)), '--max-insts', str(run.get('max_insts', 2000000000))]
        for k, v in params.items(): cmd += ['-p', f'{k}={v}']
        cmd.append(ir)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=build.env(RUST_BACKTRACE='0'))
        try: j = json.load(open(out))
        except Exception: j = None
        for p in (out, ): 
            if os.path.exists(p): os.unlink(p)
        shutil.rmtree(out + '.parts', ignore_errors=True)
        label = run['entry'] + ('(' + ','.join(f'{k}={v}' for k, v in params.items()) + ')' if params else '')
        if j is None: errors.append(f'{label}: engine failed: {r.stdout[-1500:]}'); continue
        c = j['counters']
        for k, v in c.items(): tot[k] = max(tot.get(k, 0), v) if k.startswith('MAX') else tot.get(k, 0) + v
        for f, b in j['functions'].items(): fns[f] = fns.get(f, 0) | b
        print(f"{label}: {c['paths']} paths ({c['ok']} complete, {c['assume']} cut by assumptions), {c['insts']} instructions, {c['asserts']} assertions ({c['asserts_sym']} symbolic), {c['z3q']} Z3 queries in {c['z3ns']/1e9:.1f}s, {c['ttq']} domain decisions, wall {j['wall_s']:.1f}s", flush=True)
        for v in j['violations']: viol.append((run, params, label, v))
        if not j['violations'] or j['errors']:
            for e in j['errors'][:3]: errors.append(f'{label}: {e[:1500]}')
        if not j['violations'] and r.returncode != 0 and not j['errors']: errors.append(f'{label}: engine exit {r.returncode}')
        for m, n in j['reach'].items():
            if m.startswith('KNOWN '): kf.setdefault(m[6:], []).append(label)
        if not j['violations'] and not j['errors']:
            miss = [m for m in run.get('reach', []) if not j['reach'].get(m)]
            if miss: errors.append(f'{label}: vacuous: never reached {miss}')
            if c['ok'] == 0: errors.append(f'{label}: vacuous: no complete path')
        if native_exe:
            for s in j['samples']:
                rc, o = replay(native_exe, run['entry'], s, params)
                want_panic = '\ne panic' in '\n' + s
                if rc == 0 or (rc == 15 and want_panic): samples_ok += 1
                else: samples_bad.append(f'{label}: native run of a sampled path disagrees (exit {rc}): {o[-600:]}\ninputs:\n{s[:1500]}')
        for s in j['samples'][:2]: out_samples.append({'entry': label, 'path': s[:800]})
        res.append({'entry': label, 'paths': c['paths'], 'complete': c['ok'], 'cut_by_assumption': c['assume'], 'instructions': c['insts'], 'longest_path_instructions': c['MAXinsts'], 'assertions': c['asserts'], 'assertions_symbolic': c['asserts_sym'], 'z3_queries': c['z3q'], 'z3_unsat': c['z3unsat'], 'z3_s': round(c['z3ns'] / 1e9, 2), 'byte_domain_decisions': c['ttq'], 'cached_decisions': c['cacheq'], 'wall_s': round(j['wall_s'], 2), 'reach': j['reach']})
    if samples_bad: errors += samples_bad[:3]
    # confirm violations natively
    confirmed = []
    if viol:
        try: exe = native_exe or build.native(feats, True)
        except build.BuildError as e: print(f'check {prop}: cannot build the replay binary: {e}'); return 2
        for run, params, label, v in viol[:12]:
            rc, o = replay(exe, run['entry'], v['inputs'], params)
            want = {'panic': (11, -6, 134), 'abort': (-6, 134, -11, 11, 139)}.get(v['kind'], (10,))
            if rc in want or (rc in (10, 11, -6, -11)):
                confirmed.append((run, params, label, v, o))
            else: errors.append(f"{label}: engine reports '{v['msg']}' but the native run does not fail (exit {rc}): {o[-800:]}\ninputs:\n{v['inputs'][:1500]}")
    names = demangle(sorted(fns))
    repo_fns = sorted(n for n, m in zip(names, sorted(fns)) if REPO_FN.search(n))
    repo_sym = sorted(n for n, m in zip(names, sorted(fns)) if REPO_FN.search(n) and fns[m] & 2)
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'model_checking'),
          'coverage': {'states': tot.get('paths', 0), 'transitions': tot.get('insts', 0), 'traces_validated_against_impl': samples_ok, 'samples': out_samples or [{'note': 'no complete path'}],
                       'explanation': 'states: symbolic paths, each standing for all inputs that satisfy its path condition; transitions: LLVM instructions executed symbolically; traces_validated_against_impl: solver models of explored paths run again through the natively compiled code with every observed output compared',
                       'runs': res, 'bounds': spec['bounds'], 'outside': spec.get('outside', ''), 'solver': 'z3 ' + (j['solver'] if 'j' in dir() and j else ''),
                       'z3_queries': tot.get('z3q', 0), 'z3_seconds': round(tot.get('z3ns', 0) / 1e9, 2), 'assertions_decided': tot.get('asserts', 0), 'assertions_symbolic': tot.get('asserts_sym', 0),
                       'functions_executed': len(fns), 'repository_functions_executed': len(repo_fns), 'repository_functions_with_symbolic_decisions': len(repo_sym),
                       'functions_encoded': repo_sym[:400], 'errors': errors[:10], 'known_findings_seen': sorted(kf)},
          'assumptions': spec.get('assumptions', []), 'wall_s': round(wall, 1), 'violations': len(confirmed)}
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    unknown = [k for k in kf if k not in known]
    for k in kf:
        if k in known: print(f"KNOWN-FINDING: property={prop} {known[k]['what']}")
    if confirmed:
        d = f'{V}/build/violations'; os.makedirs(d, exist_ok=True)
        for n, (run, params, label, v, o) in enumerate(confirmed[:3]):
            p = f'{d}/{prop}-{n}.txt'
            open(p, 'w').write(f"# property {prop}, harness {label}\n# {v['kind']}: {v['msg']}\n# native run: {o.strip()[-600:]!r}\n# replay: {build.B}/replay-<key> {run['entry']} <this file> {' '.join(f'{k}={x}' for k, x in params.items())}\n{v['inputs']}\n# trace\n" + '\n'.join('# ' + l for l in v['trace'].splitlines()) + '\n')
            print(f"  {label}: {v['msg'][:300]}")
            print(f'VIOLATION property={prop} replay={p}')
        return 1
    if unknown: errors.append(f'harness reports known findings that known_findings.jsonl does not list: {unknown}')
    if errors:
        for e in errors[:10]: print('ERROR', e)
        return 2
    print(f'{prop}: held on everything explored ({tot.get("paths",0)} paths, {samples_ok} replayed natively), {wall:.0f}s')
    return 0

if __name__ == '__main__': sys.exit(main())
