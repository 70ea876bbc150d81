"""regenerate MANIFEST.json"""
import json
import os
T = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'techniques.json')))
m = dict(version=1, setup_cmd='python3 -m compileall -q ctsa',
         checks=[dict(property=p, quick_cmd='python3 -m ctsa.check %s --tier quick' % p, thorough_cmd='python3 -m ctsa.check %s --tier thorough' % p,
                      technique=t['technique'], level='other', level_note=t['note']) for p, t in sorted(T['checks'].items())],
         not_applicable=[dict(property=p, reason=r) for p, r in sorted(T['not_applicable'].items())])
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
