#!/usr/bin/env python3
"""python3 check.py PROPERTY : decides one property on the current tree of /repo (see DESIGN.md)."""
import concurrent.futures, json, os, re, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, os.path.join(HERE, 'lib'))
import config, kani_run, search_run
try:
    import verus_run
except ImportError:
    verus_run = None

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    os.makedirs('evidence', exist_ok=True); os.makedirs('build', exist_ok=True)
    failed, unproved, discharged, obligations = [], [], 0, 0
    functions, checker, trusted, walls, details = [], [], [], {}, {}

    # 1. the deductive verifiers, while the search is being built
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        jobs = {}
        build = pool.submit(search_run.build)
        for unit, fns in config.VERUS.get(prop, []):
            jobs['verus ' + unit] = pool.submit(verus_run.run, unit, fns, tier)
        if prop in config.KANI:
            jobs['kani'] = pool.submit(kani_run.run, prop.lower() + '_', 8, 600 if tier == 'quick' else 1500)
        results = {k: j.result() for k, j in jobs.items()}
        problem = build.result()
    for name, r in results.items():
        checker.append(r['cmd']); walls[name] = round(r['wall'], 1)
        if name == 'kani':
            if not r['harnesses']:
                unproved.append('the Kani contracts do not build or run against this tree: ' + ' | '.join(l for l in r['out'].splitlines() if l.startswith('error'))[:400])
            for h, v in sorted(r['harnesses'].items()):
                obligations += 1
                if v['status'].startswith('SUCCESSFUL') and v['checks'] > 0: discharged += 1; functions.append('kani ' + h)
                elif v['status'].startswith('FAILED'):
                    if any('unsupported' in f or 'unwinding' in f for f in v['failed']): unproved.append('kani %s: %s' % (h, '; '.join(v['failed'][:2])))
                    else: failed.append(dict(backend='kani', obligation=h, message='; '.join(v['failed'][:3]) or v['status'], output=[l for l in r['out'].splitlines() if 'Failed Checks' in l][:20]))
                else: unproved.append('kani %s: %s' % (h, v['status']))
            details['kani_checks'] = sum(v['checks'] for v in r['harnesses'].values())
            details['kani_solver_s'] = round(sum(v['time'] for v in r['harnesses'].values()), 1)
        else:
            obligations += r['obligations']; discharged += r['discharged']
            functions += ['%s %s' % (name, f) for f in r['functions']]
            failed += r['failed']; unproved += ['%s: %s' % (name, u) for u in r['unproved']]
            trusted += r['trusted']
            details[name] = r['details']

    # thorough: no contract holds only because its precondition cannot be met
    if tier == 'thorough' and not failed:
        vac = {}
        for unit, fns in config.VERUS.get(prop, []):
            names, r = verus_run.vacuity(unit)
            names = [n for n in names if any(re.search(p, n) for p in fns)]
            vac[unit] = names
            unproved += ['vacuous contract: %s (unit %s)' % (n, unit) for n in names]
        details['contracts_found_vacuous'] = vac

    # 2. the search for a concrete failing input on the real code (bounded, never counted as proved)
    s = dict(witness=None, cases=0, stages=[], cmd='', problem=problem, wall=0)
    if problem: unproved.append(problem)
    else:
        budget = config.SEARCH[tier]
        if (failed or unproved) and tier == 'quick': budget = 60  # look harder for the input that the failed obligation announces, or where the proof leaves the code undecided
        s = search_run.run(prop, seed, budget)
        if failed and not s['witness']:
            for k in (1, 2):
                s = search_run.run(prop, seed + k, 30)
                if s['witness']: break
        if s['problem'] and not s['witness']: unproved.append(s['problem'])
    walls['search'] = round(s['wall'], 1)

    status, replay = 0, None
    if s['witness']:
        w = s['witness']
        replay = write_replay(prop, dict(kind='failing input on the real code', property=prop, input=w['input'], problem=w['problem'], seed=w['seed'], case=w['case'],
            replay='cd %s/search && cargo build --offline && target/debug/search %s --seed %s%s' % (HERE, prop, w['seed'], '' if w['case'] is None else ' --case %s' % w['case']), failed_obligations=failed))
        print('failing input: %s\n  %s' % (w['input'], w['problem']))
        for f in failed[:10]: print('failed obligation (%s): %s: %s' % (f['backend'], f['obligation'], f['message']))
        print('VIOLATION property=%s replay=%s' % (prop, replay)); status = 1
    elif failed:
        replay = write_replay(prop, dict(kind='failed obligations', property=prop, failed_obligations=failed, replay='python3 %s/check.py %s' % (HERE, prop)))
        for f in failed[:10]: print('failed obligation (%s): %s: %s' % (f['backend'], f['obligation'], f['message']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay)); status = 1
    if status == 0:
        for u in unproved[:20]: print('UNPROVED (not a violation; the bounded search found nothing): ' + u)
        print('%s: %d of %d obligations discharged, %d cases searched without a failing input' % (prop, discharged, obligations, s['cases']))

    proved = obligations > 0 and discharged == obligations and not unproved and not failed
    level = config.LEVEL.get(prop, 'proof') if proved else ('other' if obligations else 'exploration')
    cov = dict(functions_under_contract=sorted(set(functions)), obligations=obligations, discharged=discharged, checker_cmd=' ; '.join(checker),
               trusted_base=sorted(set(trusted + config.TRUSTED.get(prop, []) + config.TRUSTED['*'] + (config.TRUSTED['kani'] if 'kani' in results else []) + (config.TRUSTED['verus'] if any(k.startswith('verus') for k in results) else []))), seconds=walls, **details)
    cov['bounded_search'] = dict(cmd=s['cmd'], cases=s['cases'], stages=[list(x) for x in s['stages']], note='looks for a failing input on the compiled crate; bounded, not counted in the obligations')
    cov['evaluations'] = s['cases']
    if unproved: cov['unproved'] = unproved
    cov['explanation'] = config.SCOPE.get(prop, '')
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=config.ASSUMPTIONS.get(prop, []) + config.ASSUMPTIONS['*'], wall_s=round(time.time() - t0, 2), violations=status)
    json.dump(ev, open('evidence/%s.json' % prop, 'w'), indent=1)
    sys.exit(status)

def write_replay(prop, d):
    os.makedirs('replays', exist_ok=True)
    p = os.path.join(HERE, 'replays', prop + '.json')
    json.dump(d, open(p, 'w'), indent=1)
    return p

if __name__ == '__main__':
    main()
