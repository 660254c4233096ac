"""Regenerates MANIFEST.json from vf/meta.py."""
import json
import sys
sys.path.insert(0, '/verif')
from vf.meta import META  # noqa: E402

ids = [json.loads(x)['id'] for x in open('/verif/properties.jsonl')]
out = {
    'version': 1,
    'setup_cmd': 'python3-vt -c "import hypothesis" && mkdir -p evidence '
                 'replays',
    'checks': [{
        'property': i,
        'quick_cmd': f'python3-vt vf/run.py {i} --tier quick',
        'thorough_cmd': f'python3-vt vf/run.py {i} --tier thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': META[i]['technique'],
        'level': META[i]['level'],
        'level_note': META[i]['note'],
    } for i in ids if i in META],
    'not_applicable': [{'property': i, 'reason': 'check under construction'}
                       for i in ids if i not in META],
    'notes': 'All checks run the code of /repo\'s working tree inside the '
             'deterministic simulator vf/sim.py (see DESIGN.md). '
             '`python3-vt vf/run.py ID --replay FILE` replays a violation. '
             'No hooks are needed in /repo.',
}
json.dump(out, open('/verif/MANIFEST.json', 'w'), indent=1)
