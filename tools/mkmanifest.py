"""Writes MANIFEST.json from the checks that exist in mon/."""
import json
import os
import re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
TECH = {
    'C01': 'runtime monitor of the arrays handed to computations against a label-based model',
    'C02': 'runtime monitor of returned quantities against a label-based model',
    'C03': 'fault injection into states with monitors on exceptions and computation executions',
    'C04': 'fault injection into returned dictionaries with monitors on exceptions',
    'C05': 'fault injection into declarations with monitors on construction',
    'C06': 'snapshot monitors (deep equality before/after every call) over random call histories',
    'C07': 'runtime monitor of conversions against an own unit table',
    'C08': 'runtime monitor of composite results against hand-computed sums and unions',
    'C09': 'runtime monitor of combined properties against a set model of admissible states',
    'C10': 'online reference-integrator monitor over random stepping histories with faults',
    'C11': 'online reference-integrator monitor over random stepping histories with faults',
    'C12': 'online reference-integrator monitor over random stepping histories with faults',
    'C13': 'snapshot and trace monitors over random stepping histories',
    'C14': 'runtime monitor of tendency diagnostics against recomputed values',
    'C15': 'runtime monitor of differenced tendencies against recomputed values',
    'C16': 'runtime monitor of scaled inputs/outputs against recomputed values',
    'C17': 'online trace-specification monitor (when due, exactly once, last result)',
    'C18': 'runtime monitor of tracer arrays and results against an ordered-registry model',
    'C19': 'model-based monitor of the registry over random histories',
    'C20': 'runtime monitor of allocated arrays and of the component calls that use them',
    'C21': 'model-based monitor of the constants library over random histories',
    'C22': 'offline checker of written files against a model of the store/write history',
    'C23': 'runtime monitor of store/load round trips',
    'C24': 'crash and fault injection at every line and call boundary of a store, recovery monitor',
    'C25': 'differential runtime monitor with a recording replacement backend',
    'C26': 'runtime monitor of isinstance over the full interface truth table',
    'C27': 'runtime monitor of datetimes against own calendar arithmetic',
    'C28': 'runtime monitor of extraction/restoration against a label-based model',
    'C29': 'runtime monitor of prescribed and relaxation results over call histories',
    'C30': 'trace monitor of monitor composites and hostile plotting functions',
    'C31': 'runtime monitor of printed text and of a never-printed twin',
    'C32': 'runtime monitors of helper results against independent definitions',
    'C33': 'differential runtime monitor of copied objects against never-copied twins over interleaved calls',
    'C34': 'differential runtime monitor of whole model runs against a run with private copies and an interrupted run',
}
DEFAULT = 'runtime monitors over generated workloads'
checks, missing = [], []
for p in props:
    path = os.path.join(here, 'mon', p['id'].lower() + '.py')
    if not os.path.exists(path):
        missing.append({'property': p['id'], 'reason': 'check not built yet'})
        continue
    text = open(path).read()
    level = re.search(r"^LEVEL = '(\w+)'", text, re.M)
    level = level.group(1) if level else 'exploration'
    note = ('Held on every generated case (quick and thorough tiers differ in the number of '
            'cases); random workloads sample the quantifier, they do not exhaust it. Trusts '
            'numpy, xarray, pint and the reference model in mon/.')
    if level == 'fault_enumeration':
        note = ('Every executed line and library-call boundary of the generated stores is a crash '
                'and a fault point; the stored states themselves are sampled. Crash means process '
                'death (not power loss).')
    checks.append({
        'property': p['id'], 'quick_cmd': './run.sh ' + p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough ./run.sh ' + p['id'],
        'technique': TECH.get(p['id'], DEFAULT), 'level': level, 'level_note': note})
out = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -m compileall -q mon', 'checks': checks,
       'not_applicable': missing,
       'notes': 'No hooks in /repo: the probes are generated components, state containers and '
                'backends. Repairs are the "fix:" commits listed in known_findings.json.'}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(missing), 'missing')
