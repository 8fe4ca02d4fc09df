#!/usr/bin/env python3
"""MANIFEST.json from jobs.py and properties.jsonl."""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import jobs as J
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h', '--grep', '^hook:'], capture_output=True, text=True).stdout.split()
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=[])
m['hooks'] = dict(guard='cfg(rekordcrate_verif)', enable='RUSTFLAGS="--cfg rekordcrate_verif --check-cfg cfg(rekordcrate_verif)" (set by check.py)', source_commits=hooks)
for i in ids:
    if i in J.PROPS:
        p = J.PROPS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
            technique='symbolic execution of the compiled crate (LLVM IR) with Z3 deciding every branch and assertion; counterexamples replayed natively',
            level='model_checking',
            level_note='Holds for every input within: ' + p['bounds'] + '. ' + (('Outside: ' + p['outside'] + '. ') if p.get('outside') else '') + 'Trusts the symbolic executor (sampled paths are replayed natively), Z3, rustc. ' + '; '.join(p.get('assumptions', []))))
    else:
        m['not_applicable'].append(dict(property=i, reason=J.NOT_APPLICABLE.get(i, 'check not built yet')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
