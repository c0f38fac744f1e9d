"""MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/harness/%s.py' % (HERE, i.lower())):
        checks.append({
            'property': i,
            'quick_cmd': './check %s --tier quick' % i,
            'thorough_cmd': './check %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'path-exploring symbolic execution of the real Python source with z3 (SMT), '
                         'counterexamples and path witnesses replayed on the unmodified package',
            'level': 'model_checking',
            'level_note': 'Bounded: every assertion is decided by z3 for all values inside the bounds stated in the '
                          'evidence; trusts the operator models of /verif/symex, which are cross-checked on every path '
                          'by replaying its witness on the real code (real lxml, zipfile and files).'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3"', 'checks': checks, 'not_applicable': na},
          open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
