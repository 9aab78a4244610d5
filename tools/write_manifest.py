"""Writes MANIFEST.json from the registered checks (run after adding a property)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.chdir('/tmp')
from fxv import props  # noqa: E402

reg = props.registry()
ids = [json.loads(x)['id'] for x in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in reg:
        continue
    p = reg[i]
    checks.append({
        'property': i,
        'quick_cmd': f'/opt/venv/bin/python -m fxv {i}',
        'thorough_cmd': f'/opt/venv/bin/python -m fxv {i} --tier thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': getattr(p, 'technique', 'runtime monitoring: invariant monitors over returned results and a reference-model monitor for feasibility and optimality, on generated workloads'),
        'level': p.level,
        'level_note': getattr(p, 'level_note', 'Every generated execution is judged by monitors that share no code with flixOpt; nothing is said about executions that were not generated. Trusted: HiGHS (disagreements are re-solved under four configurations), numpy, the generator’s notion of a valid definition.'),
    })
m = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python -B -c "import fxv.props as p; print(len(p.registry()), \'checks\')"',
    'checks': checks,
    'not_applicable': [{'property': i, 'reason': 'check not built yet'} for i in ids if i not in reg],
    'notes': 'No hooks in /repo are needed: the monitors observe the public API. Pure Python, single-threaded: compiler sanitizers and race detectors have nothing to instrument.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
