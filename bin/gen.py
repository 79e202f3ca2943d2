#!/usr/bin/env python3
"""Developer command: write properties.jsonl and MANIFEST.json from props*.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = getattr(props, 'NA', {})
with open(V + '/properties.jsonl', 'w') as f:
    for pid, p in list(props.PROPS.items()) + list(NA.items()):
        assert len(p['title']) <= 80, (pid, len(p['title']))
        d = {'id': pid, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
        if p.get('observe'):
            d['anchors']['observe_at'] = p['observe']
        for fn in p['files']:
            assert os.path.exists('/repo/' + fn), (pid, fn)
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': [
    {'property': pid, 'quick_cmd': 'python3 bin/check.py %s quick' % pid, 'thorough_cmd': 'python3 bin/check.py %s thorough' % pid,
     'technique': 'symbolic execution of the LLVM bitcode of the real code, decided by Z3, counterexamples replayed natively', 'level': 'model_checking',
     'level_note': p['note'] + '. Bounded: holds for every value within these bounds; trusts the executor and runtime model (sampled paths are compared with native execution).'}
    for pid, p in props.PROPS.items()],
    'not_applicable': [{'property': pid, 'reason': p['reason']} for pid, p in NA.items()]}
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
