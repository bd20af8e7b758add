"""For each fix listed in known_findings.json: undo it in a scratch copy and see that the property's check objects.
usage: reverts.py [COMMIT ...]"""
import json, os, re, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = sys.argv[1:]
for text in json.load(open(os.path.join(here, 'known_findings.json')))['fixed']:
    prop, commit, what = re.match(r'fixed: property=(\S+) (\S+) (.*)', text).groups()
    if want and commit not in want:
        continue
    top = tempfile.mkdtemp(prefix='revert_')
    dst = os.path.join(top, 'repo')
    shutil.copytree('/repo', dst, symlinks=True)
    r = subprocess.run(['git', '-C', dst, '-c', 'user.name=x', '-c', 'user.email=x@x', 'revert', '--no-commit', commit],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(commit, prop, 'CONFLICT', what, flush=True)
    else:
        env = dict(os.environ, VERIF_REPO=dst, VERIF_SEED='1', VERIF_TIER='quick')
        r = subprocess.run([os.path.join(here, 'run.sh'), prop], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(commit, prop, 'DETECTED' if r.returncode == 1 else 'rc=%d NOT DETECTED' % r.returncode, what, flush=True)
    shutil.rmtree(top)
