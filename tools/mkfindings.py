"""Writes known_findings.json. Findings suppress; fixed entries do not."""
import json
import os
import subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = []
PROPERTY = {
    'b70bfa4': 'C18',
    '6cee668': 'C23',
    'f98491e': 'C06',
    '9ac6d5a': 'C09', 'bacfea1': 'C16', 'f83ea1a': 'C16', 'bb8b922': 'C02', 'c1478e2': 'C14',
    'd95b6d2': 'C14', 'c6373a2': 'C14', 'c193f07': 'C14', '9891c98': 'C14', 'd634adb': 'C21',
    '0ed397c': 'C27', 'ede6bc8': 'C07', '1795888': 'C07', 'f6033ec': 'C02', '2390b51': 'C08',
    'a83c62b': 'C19', '1fb0a24': 'C20', 'f1e9ebf': 'C18', '65b3654': 'C10', '4db0581': 'C10',
    '99fdaed': 'C13', '02d2f25': 'C12', 'a506bb2': 'C22', '6445007': 'C22', 'a5ef667': 'C22',
    'ffb6523': 'C22', 'cd39302': 'C22', '7bfc031': 'C22', '4f1b14f': 'C23', '29c5a4a': 'C24',
    '7109afa': 'C31', '38c2c42': 'C16', '4d24ae4': 'C07', '0c89a4a': 'C18',
    '33607a1': 'C33', '3a3af1f': 'C05', 'cd82b5e': 'C23', '2bf9279': 'C32',
    '7e3723a': 'C28', 'cb2c2ad': 'C28',
    'e795172': 'C30', 'addf100': 'C02', '9c77530': 'C11', 'ed85c02': 'C16',
    '2abba54': 'C22', '7a9331f': 'C01',
    '76b7caa': 'C02'}
log = subprocess.check_output(
    ['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '--grep=^fix:'], text=True)
fixed = []
for line in log.splitlines():
    commit, subject = line.split(' ', 1)
    if not subject.startswith('fix:'):
        continue
    fixed.append('fixed: property={} {} {}'.format(
        PROPERTY[commit], commit, subject[4:].strip()))
with open(os.path.join(here, 'known_findings.json'), 'w') as f:
    json.dump({'findings': FINDINGS, 'fixed': fixed}, f, indent=1)
    f.write('\n')
print(len(fixed), len(PROPERTY))
