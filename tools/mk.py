#!/usr/bin/env python3
"""
Writes properties.jsonl and MANIFEST.json from one table (tools/props.py).
A property is claimed when its check module exists.
"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from tools.props import PROPS, NOT_APPLICABLE  # NOQA

PY = '/opt/venv/bin/python'


def main():
    lines, checks, na = [], [], []
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        lines.append(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None},
        }))
        if os.path.exists(os.path.join(ROOT, 'vmon', 'checks', p['id'].lower() + '.py')):
            checks.append({
                'property': p['id'],
                'quick_cmd': f'{PY} run_check.py {p["id"]} --tier quick',
                'thorough_cmd': f'{PY} run_check.py {p["id"]} --tier thorough',
                'evidence_file': f'evidence/{p["id"]}.json',
                'technique': 'runtime monitoring: ' + p['technique'],
                'level': 'exploration' if not p.get('level') else p['level'],
                'level_note': p['note'],
            })
        else:
            na.append({'property': p['id'], 'reason': 'no check has been built for it yet'})
    na += NOT_APPLICABLE
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    man = {
        'version': 1,
        'setup_cmd': f'{PY} -c "import numpy, kwimage, delayed_image, osgeo.gdal"',
        'checks': checks,
        'not_applicable': na,
        'notes': 'The package is pure Python and installed in editable mode from /repo, the checks import it from the '
                 'working tree; run_check.py refuses to judge any other copy. No hooks were added to /repo: the monitors '
                 'observe through the public API, and wrap GDAL band reads and pixel buffers from outside.',
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(lines), 'properties', len(checks), 'checks')


if __name__ == '__main__':
    main()
