"""Writes MANIFEST.json from lib/config.py (run by hand when the claims change)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import config
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in config.NA: na.append(dict(property=i, reason=config.NA[i])); continue
    if i not in config.KANI and i not in config.VERUS:
        na.append(dict(property=i, reason='not covered yet: the contracts of this part are still being written')); continue
    tech = ' and '.join((['Verus contracts on the functions extracted from /repo at each run'] if i in config.VERUS else []) + (['Kani contracts on the compiled crate'] if i in config.KANI else []))
    checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py %s --thorough' % i, technique=tech, level=config.LEVEL.get(i, 'proof'), level_note=config.NOTE.get(i, 'deductive, all inputs')))
json.dump(dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na, notes='See DESIGN.md. No hook in /repo: the checks use its public interface and its source text.'), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
