"""Creates and confirms planted changes.
usage: seed.py make SPEC.py [ID ...]   write seeded/<id>/ from SPEC.py and confirm
       seed.py catch [ID ...]          run the property's check against each in a scratch copy
SPEC.py defines SEEDS = {id: dict(property, needs, breaks, edits=[(file, old, new)], demo)}."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import runpy

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = None


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def copy():
    top = tempfile.mkdtemp(prefix='seed_')
    dst = os.path.join(top, 'repo')
    shutil.copytree('/repo', dst, symlinks=True)
    return top, dst


def tests_pass(dst):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               TZ='UTC', PYTHONPATH=dst)
    work = tempfile.mkdtemp(prefix='seedt_')
    try:
        run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
             '--timeout=300', '-x' if False else '-q', '--basetemp', work + '/b',
             '-o', 'junit_family=xunit2', '--junitxml', work + '/j.xml', 'tests'], cwd=dst, env=env)
        r = run(['python3', '/opt/vp/results.py', work + '/out.json', 'junit:' + work + '/j.xml'])
        if not os.path.exists(work + '/out.json'):
            return 'no results: ' + r.stdout[-500:]
        out = json.load(open(work + '/out.json'))
        passed = set(out.get('passed', out.get('pass', [])))
        base = json.load(open('/opt/vp/BASELINE.json'))
        stable = set(base.get('stable', base.get('passed', base.get('pass', []))))
        assert stable, list(base)
        lost = stable - passed
        return sorted(lost)[:5]
    finally:
        shutil.rmtree(work)


def demo(folder, dst):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
    env.pop('PYTHONPATH', None)
    return run(['bash', os.path.join(folder, 'demo.sh')], cwd=dst, env=env, timeout=300)


def make(spec, ids):
    seeds = runpy.run_path(spec)['SEEDS']
    for sid, s in seeds.items():
        if ids and sid not in ids:
            continue
        folder = os.path.join(VERIF, 'seeded', sid)
        top, dst = copy()
        try:
            for name, old, new in s['edits']:
                path = os.path.join(dst, name)
                text = open(path).read()
                if text.count(old) != 1:
                    print(sid, 'EDIT', name, text.count(old), 'matches of', repr(old[:80]))
                    raise SystemExit(1)
                open(path, 'w').write(text.replace(old, new))
            patch = subprocess.check_output(['git', '-C', dst, 'diff'], text=True)
            os.makedirs(folder, exist_ok=True)
            open(folder + '/patch.diff', 'w').write(patch)
            open(folder + '/meta.json', 'w').write(json.dumps(
                {'property': s['property'], 'needs': s['needs'],
                 'what_it_breaks': s['breaks']}, indent=1) + '\n')
            open(folder + '/demo.sh', 'w').write(
                '#!/bin/bash\n# run with cwd at the repository\n'
                'export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                'PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            open(folder + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
            clean = demo(folder, '/repo')
            bad = demo(folder, dst)
            lost = tests_pass(dst)
            ok = clean.returncode == 0 and bad.returncode != 0 and not lost
            print(sid, 'OK' if ok else 'NOT CONFIRMED', 'clean', clean.returncode, 'patched',
                  bad.returncode, 'lost', lost)
            if clean.returncode != 0:
                print(clean.stdout[-1500:])
            elif not ok:
                print(bad.stdout[-600:])
            else:
                print('    ', bad.stdout.strip().splitlines()[-1][:150])
        finally:
            shutil.rmtree(top)


def catch(ids):
    root = os.path.join(VERIF, 'seeded')
    for sid in sorted(ids or os.listdir(root)):
        folder = os.path.join(root, sid)
        meta = json.load(open(folder + '/meta.json'))
        top, dst = copy()
        try:
            r = run(['git', '-C', dst, 'apply', folder + '/patch.diff'])
            if r.returncode:
                print(sid, 'patch does not apply', r.stdout[-300:])
                continue
            env = dict(os.environ, VERIF_REPO=dst)
            env.setdefault('VERIF_SEED', '1')
            r = run([VERIF + '/run.sh', meta['property']], env=env, cwd=VERIF)
            line = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
            msg = [l for l in r.stdout.splitlines() if 'violat' in l.lower() or ':' in l]
            print(sid, meta['property'], 'CAUGHT' if r.returncode == 1 and line else
                  'MISSED rc={}'.format(r.returncode), '|', ' / '.join(msg)[:160], flush=True)
        finally:
            shutil.rmtree(top)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2], sys.argv[3:])
    else:
        catch(sys.argv[2:])
