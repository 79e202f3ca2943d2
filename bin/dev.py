"""Developer tool: dev.py harness.cpp [entry] [time] [key=value...]"""
import sys, time, json
import concurrent.futures as cf
sys.path.insert(0, '/verif/bin')
import vlib
h = sys.argv[1]
args = [a for a in sys.argv[2:] if '=' not in a]
kv = dict(a.split('=', 1) for a in sys.argv[2:] if '=' in a)
entry = args[0] if args else 'harness'
sec = float(args[1]) if len(args) > 1 else 60
preempt = kv.pop('preempt', None)
jobs = int(kv.pop('jobs', 8))
ub = kv.pop('ub', None)
import checks_db
t = time.time()
with cf.ThreadPoolExecutor(8) as pool:
    vlib.build_engine()
    inc, extra = checks_db.generated(h, pool) if hasattr(checks_db, 'generated') else ([], [])
    p = vlib.Program(h, includes=inc, extra=extra, ub=bool(ub)).build(pool)
    print('missing', p.missing, 'files', len(p.used_files), 'build %.1f' % (time.time() - t))
    if p.missing: print(p.missing)
    r = vlib.symx(p, entry, sec, jobs=jobs, params=kv, preempt=preempt)
    sm = r.pop('samples', [])
    v = r.pop('violations', [])
    fn = r.pop('functions', {})
    print(json.dumps(r, indent=1))
    print('functions', len(fn))
    n = p.native_from_bitcode(pool) if sm else None
    ok = 0
    for s in sm[:16]:
        vlib.write_inputs('/tmp/in.txt', s['inputs'])
        rc, o, e = vlib.replay(n, '/tmp/in.txt', entry, params=kv, preempt=preempt)
        if rc == 0 and 'TRACE ' + s['trace'] in o: ok += 1
        else: print('SAMPLE MISMATCH', s, rc, o[-500:], e[-500:])
    print('samples ok', ok, '/', min(16, len(sm)))
    seen = set()
    for x in v:
        k = (x['message'], x['where'])
        if k in seen: continue
        seen.add(k)
        print('VIOL', x['kind'], x['message'], x['where'])
        for l in x['stack'][:14]: print('    ', l[:300])
        print('  inputs', x['inputs'])
        print('  log', x['log'])
        a = p.native_sanitized(pool)
        vlib.write_inputs('/tmp/in_v.txt', x['inputs'])
        rc, o, e = vlib.replay(a, '/tmp/in_v.txt', entry, params=kv, preempt=preempt)
        print('  replay rc', rc, o[-600:], e[:1500])
    print('total %.1f' % (time.time() - t))
