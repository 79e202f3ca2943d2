#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decide one property;   check.py --replay FILE   re-run a recorded counterexample"""
import concurrent.futures as cf
import json
import os
import re
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import props

VIOLATED = (10, 11, 12, 15)      # assertion, uncaught exception, deadlock, runaway
BENIGN = (0, 13, 14, 99)         # done, outside the assumptions, inputs do not fit, timeout


def confirmed(rc, out, err):
    if rc in VIOLATED:
        return True
    if rc in BENIGN:
        return False
    return True                  # sanitizer report or signal


def load_known(pid):
    try:
        with open(os.path.join(vlib.VERIF, 'known_findings.json')) as f:
            return [k for k in json.load(f)['findings'] if k['property'] == pid]
    except OSError:
        return []


def known_match(known, run, v, out, err):
    for k in known:
        if k['entry'] != run['entry'] or k['harness'] != run['harness']:
            continue
        if not re.search(k['message'], v['message']):
            continue
        if k.get('site') and not any(re.search(k['site'], s) for s in v['stack'] + [v['where']]):
            continue
        if k.get('inputs') and not all(any(re.fullmatch(p, i) for i in v['inputs']) for p in k['inputs']):
            continue
        return k
    return None


def do_run(pool, prop, pid, run, tier, programs, known, state, seed):
    key = (run['harness'], bool(run.get('ub')), tuple(run.get('defines', ())))
    if key not in programs:
        import checks_db
        inc, extra = checks_db.generated(run['harness'], pool) if hasattr(checks_db, 'generated') else ([], [])
        programs[key] = vlib.Program(run['harness'], includes=inc, extra=extra, defines=run.get('defines', ()), ub=bool(run.get('ub'))).build(pool)
    p = programs[key]
    if p.missing:
        vlib.log('note: unresolved symbols', sorted(p.missing)[:5])
    state['engine'].result()
    params = dict(run.get('params', {}))
    seconds = run.get('time', 60)
    preempt = run.get('preempt')
    r = vlib.symx(p, run['entry'], seconds, params=params, preempt=preempt, solver_timeout=run.get('solver_timeout'),
                  concretize=run.get('concretize'), random_search=run.get('random', False), max_steps=run.get('max_steps'), seed=seed)
    info = {'harness': run['harness'], 'entry': run['entry'], 'bounds': params, 'preemptions': preempt, 'time_limit_s': seconds, 'what': run.get('what', ''),
            'exhaustive': False}
    if 'error' in r:
        info['error'] = r['error']
        return info, False
    for k in ('paths_completed', 'paths_assumed_away', 'paths_violated', 'forks', 'instructions', 'asserts_checked', 'asserts_trivial', 'incomplete', 'assert_hits', 'reach_hits', 'solver', 'wall'):
        info[k] = r.get(k)
    info['functions_encoded'] = sorted(f for f in r.get('functions', {}))
    info['source_files'] = p.used_files
    info['exhaustive'] = not r.get('incomplete')
    ok = True
    # counterexamples: replay against the real code, compiled natively with sanitizers
    seen = set()
    info['violations'] = []
    for v in sorted(r.get('violations', []), key=lambda v: len(v['inputs'])):
        k = (v['message'], v['where'], (known_match(known, run, v, '', '') or {}).get('id'))
        if k in seen:
            continue
        if len(seen) >= 8:
            break
        seen.add(k)
        try:
            binary = p.native_sanitized(pool)
        except vlib.BuildError as e:
            vlib.log('note: %s' % e)
            info['error'] = 'counterexample could not be replayed: ' + str(e)[:300]
            ok = False
            break
        os.makedirs(os.path.join(vlib.VERIF, 'replays'), exist_ok=True)
        path = os.path.join(vlib.VERIF, 'replays', '%s-%d.txt' % (pid, state['n']))
        state['n'] += 1
        header = ['property: ' + pid, 'run: ' + json.dumps({k2: v2 for k2, v2 in run.items() if k2 != 'what'}), 'kind: ' + v['kind'], 'message: ' + v['message'], 'where: ' + v['where']] + \
            ['stack: ' + s for s in v['stack'][:12]]
        vlib.write_inputs(path, v['inputs'], header)
        rc, out, err = vlib.replay(binary, path, run['entry'], params=params, preempt=preempt)
        how = 'sanitized build'
        conf = confirmed(rc, out, err)
        if not conf and rc != 13 and v['kind'] != 'memory':
            # the very bitcode that was analysed
            try:
                rc2, out2, err2 = vlib.replay(p.native_from_bitcode(pool), path, run['entry'], params=params, preempt=preempt)
                if confirmed(rc2, out2, err2):
                    conf, rc, out, err, how = True, rc2, out2, err2, 'native build of the analysed code'
            except vlib.BuildError:
                pass
        rec = {'message': v['message'], 'where': v['where'], 'kind': v['kind'], 'replay': path, 'replay_exit': rc, 'confirmed': conf, 'replayed_on': how}
        kf = known_match(known, run, v, out, err) if conf else None
        if kf:
            rec['known'] = kf['id']
            state['known'][kf['id']] = kf
        info['violations'].append(rec)
        with open(path, 'a') as f:
            f.write('# replay exit code %d (%s)\n' % (rc, 'confirmed' if conf else 'NOT reproduced'))
            for l in (out + err)[-3000:].splitlines():
                f.write('# ' + l + '\n')
        if conf and not kf:
            state['violations'].append((rec, path))
    # random complete paths, compared with the same code running natively
    val = 0
    bad = []
    if r.get('samples'):
        try:
            binary = p.native_from_bitcode(pool)
            samples = r['samples'][:6]

            def one(i_s):
                i, s = i_s
                f = os.path.join(vlib.BUILD, 'sample_%d_%d.txt' % (os.getpid(), i))
                vlib.write_inputs(f, s['inputs'])
                rc, out, err = vlib.replay(binary, f, run['entry'], params=params, preempt=preempt)
                os.unlink(f)
                return rc, out, err, s
            for rc, out, err, s in pool.map(one, enumerate(samples)):
                if rc == 0 and ('TRACE ' + s['trace']) in out:
                    val += 1
                else:
                    bad.append({'rc': rc, 'tail': (out + err)[-300:]})
        except vlib.BuildError as e:
            vlib.log('note: %s' % e)
    info['traces_validated'] = val
    info['sample_inputs'] = ['%s/%s solver-generated inputs (name width occurrences value): %s' % (run['harness'], run['entry'], ', '.join(x['inputs'][:40])) for x in r.get('samples', [])[:2]]
    if bad:
        info['traces_mismatched'] = bad
        vlib.log('note: %d sampled path(s) differ natively' % len(bad), bad[:1])
    missing = [l for l in run.get('reach', ['end']) if not (r.get('reach_hits') or {}).get(l)]
    if missing and not info['violations']:
        info['error'] = 'never reached: %s' % missing
        ok = False
    elif not r.get('paths_completed') and not info['violations']:
        info['error'] = 'no complete path'
        ok = False
    return info, ok


def main():
    if sys.argv[1] == '--replay':
        return replay_file(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop = props.PROPS[pid]
    known = load_known(pid)
    t0 = time.time()
    state = {'n': 0, 'known': {}, 'violations': []}
    programs = {}
    runs = []
    ok = True
    with cf.ThreadPoolExecutor(vlib.JOBS) as pool, cf.ThreadPoolExecutor(1) as side:
        state['engine'] = side.submit(vlib.build_engine)
        for run in prop['runs']:
            tiers = run.get('tiers', ('quick', 'thorough'))
            if tier not in tiers:
                continue
            run = dict(run)
            if tier == 'thorough':
                run.update(run.get('thorough', {}))
            run.pop('thorough', None)
            run.pop('tiers', None)
            try:
                info, good = do_run(pool, prop, pid, run, tier, programs, known, state, seed)
            except vlib.BuildError as e:
                info, good = {'harness': run['harness'], 'entry': run['entry'], 'error': str(e)[:1500]}, False
            except Exception:
                info, good = {'harness': run['harness'], 'entry': run['entry'], 'error': traceback.format_exc()[-1500:]}, False
            ok = ok and good
            runs.append(info)
            stop = bool(state['violations'])
            print('%s %s/%s: %s paths, %s queries, %.1fs%s%s' % (pid, run['harness'], run['entry'], info.get('paths_completed'), (info.get('solver') or {}).get('queries'), info.get('wall') or 0,
                  '' if info.get('exhaustive') else ' (not exhaustive: %s)' % json.dumps(info.get('incomplete')), ' ERROR ' + info['error'] if 'error' in info else ''), flush=True)
            if stop:
                break
    functions = sorted({f for i in runs for f in i.get('functions_encoded', [])})
    tot = lambda k: sum(i.get(k) or 0 for i in runs)
    stot = lambda k: sum((i.get('solver') or {}).get(k, 0) for i in runs)
    cov = {
        'states': tot('paths_completed'), 'transitions': tot('forks'), 'traces_validated_against_impl': tot('traces_validated'), 'samples': [],
        'instructions_interpreted': tot('instructions'), 'assertions_checked': tot('asserts_checked'),
        'queries': stot('queries'), 'unsat': stot('unsat'), 'sat': stot('sat'), 'unknown': stot('unknown'), 'solver_seconds': round(stot('seconds'), 2),
        'exhaustive_within_bounds': all(i.get('exhaustive') for i in runs),
        'functions_encoded': functions, 'runs': [{k: v for k, v in i.items() if k != 'functions_encoded'} for i in runs],
    }
    for i in runs:
        cov['samples'].append('%s/%s bounds %s: %s complete paths, %s assertions, %s' % (i['harness'], i['entry'], json.dumps(i.get('bounds', {})), i.get('paths_completed'), i.get('asserts_checked'), 'all paths within bounds' if i.get('exhaustive') else 'stopped early: ' + json.dumps(i.get('incomplete') or i.get('error', ''))))
    for i in runs:
        for sm in i.pop('sample_inputs', []):
            cov['samples'].append(sm)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'assumptions': prop.get('assumptions', []) + props.COMMON_ASSUMPTIONS, 'violations': len(state['violations'])}
    os.makedirs(os.path.join(vlib.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(vlib.VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in state['known'].values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if state['violations']:
        for rec, path in state['violations']:
            print('  %s at %s (replay exit %d, %s)' % (rec['message'], rec['where'], rec['replay_exit'], rec['replayed_on']))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if not ok:
        print('INCONCLUSIVE property=%s' % pid)
        return 2
    print('HELD property=%s wall=%.1fs' % (pid, time.time() - t0))
    return 0


def replay_file(path):
    run = None
    with open(path) as f:
        for l in f:
            if l.startswith('# run: '):
                run = json.loads(l[7:])
    import checks_db
    with cf.ThreadPoolExecutor(vlib.JOBS) as pool:
        inc, extra = checks_db.generated(run['harness'], pool) if hasattr(checks_db, 'generated') else ([], [])
        p = vlib.Program(run['harness'], includes=inc, extra=extra, defines=run.get('defines', ()), ub=bool(run.get('ub'))).build(pool)
        rc, out, err = vlib.replay(p.native_sanitized(pool), path, run['entry'], params=run.get('params'), preempt=run.get('preempt'))
    sys.stdout.write(out)
    sys.stderr.write(err)
    return 1 if confirmed(rc, out, err) else 0


if __name__ == '__main__':
    sys.exit(main())
