"""Writes /verif/MANIFEST.json from properties.jsonl and the harnesses present."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(HERE, 'harness', pid + '.py')):
        checks.append({
            'property': pid,
            'quick_cmd': '/opt/venv/bin/python check.py %s' % pid,
            'thorough_cmd': '/opt/venv/bin/python check.py %s --tier=thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': 'symbolic execution of the real Python source with an SMT solver (z3) '
                         'deciding every assertion over all inputs within the stated bounds',
            'level': 'model_checking',
            'level_note': 'Every path of the real code within the bounds printed in the evidence '
                          'file is executed on symbolic inputs and every assertion discharged by z3 '
                          '(paths and queries are counted there). Trusted: the engine in symx/ '
                          '(its models of numpy, pandas, random and file access; each is validated by '
                          're-running a concrete model of explored paths on the real libraries), z3 and '
                          'real arithmetic in place of IEEE doubles. Nothing is claimed outside the bounds.'})
    else:
        na.append({'property': pid, 'reason': 'the check for this property is not built yet'})
doc = {'version': 1, 'setup_cmd': '/opt/venv/bin/python check.py --selftest', 'checks': checks,
       'not_applicable': na,
       'notes': 'No hooks are needed in /repo: the engine imports the classes from /repo/PyCTBN at run '
                'time, rewriting their source in memory. See DESIGN.md.'}
json.dump(doc, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
