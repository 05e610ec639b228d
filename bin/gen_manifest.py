#!/usr/bin/env python3
"""Development tool: writes MANIFEST.json from the registry."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
m = dict(version=1, setup_cmd='bash bin/setup.sh', checks=[], not_applicable=registry.NOT_APPLICABLE,
         hooks=dict(guard='none', enable='No hooks are needed: harnesses use the public interfaces, interposition at link time and a preloaded library.', source_commits=[]),
         notes=registry.NOTES)
for pid, c in sorted(registry.CHECKS.items()):
    m['checks'].append(dict(property=pid, quick_cmd='python3 bin/check.py %s quick' % pid, thorough_cmd='python3 bin/check.py %s thorough' % pid,
        evidence_file='evidence/%s.json' % pid, technique=c['technique'], level=c['level'], level_note=c['note']))
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json'), 'w'), indent=1)
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl') if l.strip()]
print('claimed', len(m['checks']), 'properties', len(props), 'unclaimed', sorted(set(props) - set(registry.CHECKS)))
