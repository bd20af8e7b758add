"""Mutation of /repo in scratch copies, to find what the checks miss.
usage: mutate.py OUT.jsonl [--workers N] [--files a.py,b.py] [--sample N] [--seed S]
Each mutant that passes the repository's tests is given to the checks (those of the file below, or all,
stopping at the first that reports a violation). Survivors are for reading."""
import argparse
import ast
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST = {
    'backend.py': 'C25 C01 C02 C13 C06', 'base_components.py':
    'C02 C04 C05 C03 C13 C20 C31 C26 C06 C01 C19 C16', 'combine_properties.py': 'C08 C09 C20',
    'composite.py': 'C09 C08 C31 C30 C06 C20 C05', 'constants.py': 'C21', 'dataarray.py': 'C32 C07',
    'get_np_arrays.py': 'C01 C02 C03', 'init_np_arrays.py': 'C20 C02',
    'restore_dataarray.py': 'C02 C04 C13', 'state.py': 'C10 C12 C11',
    'tendencystepper.py': 'C10 C11 C12 C13 C14 C31 C08 C06', 'time.py': 'C27',
    'tracers.py': 'C18 C19 C20', 'units.py': 'C07 C29', 'util.py': 'C28 C32 C09 C08',
    'wildcard.py': 'C01 C02 C03', 'wrappers.py': 'C15 C16 C17 C26 C06', 'basic.py': 'C29 C15 C16 C13 C31',
    'netcdf.py': 'C22 C23 C24', 'plot.py': 'C30', 'timesteppers.py': 'C10 C11 C12 C14 C06 C13',
    '__init__.py': 'C32'}
ALL = ['C%02d' % i for i in range(1, 33)]
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>',
       ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.FloorDiv: '/',
       ast.Mod: '*'}


def mutants(path):
    text = open(path).read()
    tree = ast.parse(text)
    lines = text.split('\n')
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()) + 1)
    raw = text.encode()

    def span(node):
        return (starts[node.lineno - 1] + node.col_offset,
                starts[node.end_lineno - 1] + node.end_col_offset)

    def src(node):
        a, b = span(node)
        return raw[a:b].decode()
    out = []

    def put(node, new, what):
        a, b = span(node)
        out.append((node.lineno, what, raw[a:b].decode(), new,
                    (raw[:a] + new.encode() + raw[b:]).decode()))
    docs = set()
    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.Module, ast.ClassDef, ast.FunctionDef)):
            if node.body and isinstance(node.body[0], ast.Expr) and isinstance(
                    node.body[0].value, ast.Constant):
                docs.add(id(node.body[0]))
    for node in ast.walk(tree):
        if isinstance(node, ast.Raise):     # texts of errors
            for sub in ast.walk(node):
                skip.add(id(sub))
            skip.discard(id(node))
    for node in ast.walk(tree):
        if id(node) in skip:
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            put(node, '{} {} {}'.format(src(node.left), CMP[type(node.ops[0])],
                                        src(node.comparators[0])), 'compare')
        elif isinstance(node, ast.BoolOp):
            op = ' or ' if isinstance(node.op, ast.And) else ' and '
            put(node, '(' + op.join('(' + src(v) + ')' for v in node.values) + ')', 'boolop')
            for i in range(len(node.values)):
                rest = [v for j, v in enumerate(node.values) if j != i]
                op = ' and ' if isinstance(node.op, ast.And) else ' or '
                put(node, '(' + op.join('(' + src(v) + ')' for v in rest) + ')', 'drop operand')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            put(node, '(' + src(node.operand) + ')', 'not')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            put(node, '(' + src(node.operand) + ')', 'minus')
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            if isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
                continue
            put(node, '(({}) {} ({}))'.format(src(node.left), BIN[type(node.op)],
                                              src(node.right)), 'binop')
        elif isinstance(node, ast.Constant):
            if node.value is True or node.value is False:
                put(node, str(not node.value), 'bool')
            elif isinstance(node.value, (int, float)):
                put(node, repr(node.value + 1), 'number')
        elif isinstance(node, ast.Expr) and id(node) not in docs and isinstance(
                node.value, ast.Call):
            put(node, 'pass', 'drop call')
        elif isinstance(node, ast.AugAssign):
            put(node, 'pass', 'drop augassign')
        elif isinstance(node, ast.Assign) and isinstance(
                node.targets[0], (ast.Subscript, ast.Attribute)):
            put(node, 'pass', 'drop assign')
        elif isinstance(node, ast.Raise):
            put(node, 'pass', 'drop raise')
        elif isinstance(node, (ast.Continue, ast.Break)):
            put(node, 'pass', 'drop jump')
        elif isinstance(node, ast.Delete):
            put(node, 'pass', 'drop del')
        elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
            put(node.test, 'False', 'never')
            put(node.test, 'True', 'always') if not isinstance(node, ast.While) else None
        elif isinstance(node, ast.Slice):
            pass
        if isinstance(node, ast.Call):
            f = node.func
            if isinstance(f, ast.Attribute) and f.attr in ('copy', 'lower', 'strip',
                                                           'transpose', 'flatten'):
                put(node, src(f.value), 'drop .' + f.attr)
            if isinstance(f, ast.Name) and f.id in (
                    'dict', 'list', 'tuple', 'set', 'sorted', 'float', 'int', 'str') and len(
                        node.args) == 1 and not node.keywords:
                put(node, '(' + src(node.args[0]) + ')', 'drop ' + f.id)
            if isinstance(f, ast.Attribute) and f.attr in ('deepcopy', 'asarray', 'array') and (
                    len(node.args) == 1):
                put(node, '(' + src(node.args[0]) + ')', 'drop ' + f.attr)
            texts = isinstance(f, ast.Attribute) and f.attr in ('format', 'update') or (
                isinstance(f, ast.Name) and f.id in ('super', 'same_list'))
            if len(node.args) >= 2 and not texts and not any(isinstance(a, ast.Starred) for a in node.args[:2]):
                a, b = node.args[:2]
                s0, e0 = span(a)
                s1, e1 = span(b)
                new = raw[:s0] + raw[s1:e1] + raw[e0:s1] + raw[s0:e0] + raw[e1:]
                out.append((node.lineno, 'swap arguments', src(node), '', new.decode()))
            for k in node.keywords:
                if k.arg:
                    s0, e0 = span(k)
                    new = re.sub(rb',?\s*$', b'', raw[:s0]) + raw[e0:]
                    if raw[e0:e0 + 1] == b',' and raw[:s0].rstrip().endswith(b'('):
                        new = raw[:s0] + raw[e0 + 1:].lstrip()
                    out.append((node.lineno, 'drop keyword ' + k.arg, src(node), '', new.decode()))
        if isinstance(node, ast.ExceptHandler) and isinstance(node.type, ast.Tuple) and len(
                node.type.elts) > 1:
            for i, e in enumerate(node.type.elts):
                put(node.type, '(' + ', '.join(src(x) for j, x in enumerate(
                    node.type.elts) if j != i) + ',)', 'drop exception ' + src(e))
        if isinstance(node, ast.Return) and node.value is not None and isinstance(
                node.value, ast.Tuple) and len(node.value.elts) == 2:
            a, b = node.value.elts
            put(node.value, src(b) + ', ' + src(a), 'swap returned')
        if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
            for x, y in (('input_properties', 'output_properties'),
                         ('output_properties', 'tendency_properties'),
                         ('tendency_properties', 'input_properties'),
                         ('diagnostic_properties', 'input_properties')):
                if node.attr == x:
                    put(node, src(node.value) + '.' + y, 'other attribute')
    # a duplicate nobody calls
    dead = range(0)
    if path.endswith('get_np_arrays.py'):
        dead = [range(n.lineno, n.end_lineno + 1) for n in tree.body
                if getattr(n, 'name', '') == 'get_numpy_array'][0]
    seen, kept = set(), []
    for m in out:
        if m[0] in dead:
            continue
        if m[4] in seen or m[4] == text:
            continue
        seen.add(m[4])
        try:
            ast.parse(m[4])
        except SyntaxError:
            continue
        kept.append(m)
    return kept


STATE = {}


def setup(n, work):
    me = multiprocessing.current_process()._identity[0]
    top = '{}/w{}'.format(work, me)
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    shutil.copytree('/repo', top + '/repo', symlinks=True,
                    ignore=shutil.ignore_patterns('.git', '__pycache__'))
    shutil.copytree(VERIF, top + '/verif', symlinks=True,
                    ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays'))
    STATE['top'] = top
    STATE['all'] = n


def tests(repo, top):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               TZ='UTC', PYTHONPATH=repo, PYTHONWARNINGS='ignore')
    p = subprocess.run(
        'timeout 120 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=60 '
        '--basetemp {}/b tests; rc=$?; rm -f out.nc; cp -p /repo/tests/restart.nc tests/ '
        '2>/dev/null; exit $rc'.format(top), shell=True, cwd=repo, env=env,
        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return p.returncode == 0


def one(job):
    name, path, m = job
    top = STATE['top']
    repo = top + '/repo'
    target = os.path.join(repo, path)
    original = open(target).read()
    res = {'file': path, 'line': m[0], 'what': m[1], 'old': m[2][:300], 'new': m[3][:300]}
    try:
        open(target, 'w').write(m[4])
        if not tests(repo, top):
            res['result'] = 'killed by tests'
            return res
        first = FIRST.get(name, '').split()
        order = first + [c for c in ALL if c not in first and STATE['all']]
        env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick')
        trouble = []
        for c in order:
            p = subprocess.run(['timeout', '400', top + '/verif/run.sh', c], env=env, text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode == 1 and 'VIOLATION' in p.stdout:
                res['result'] = 'caught'
                res['by'] = c
                return res
            if p.returncode:
                trouble.append((c, p.returncode, p.stdout[-200:]))
        res['result'] = 'survived'
        if trouble:
            res['trouble'] = trouble
        return res
    finally:
        open(target, 'w').write(original)


def main():
    a = argparse.ArgumentParser()
    a.add_argument('out')
    a.add_argument('--workers', type=int, default=7)
    a.add_argument('--files')
    a.add_argument('--sample', type=int)
    a.add_argument('--seed', type=int, default=0)
    a.add_argument('--all', action='store_true', help='all checks, not only those of the file')
    a.add_argument('--list', action='store_true')
    o = a.parse_args()
    jobs = []
    for base in ('sympl/_core', 'sympl/_components', 'sympl'):
        for name in sorted(os.listdir(os.path.join('/repo', base))):
            if not name.endswith('.py') or (o.files and name not in o.files.split(',')):
                continue
            path = base + '/' + name
            for m in mutants('/repo/' + path):
                jobs.append((name, path, m))
    random.Random(o.seed).shuffle(jobs)
    if o.sample:
        jobs = jobs[:o.sample]
    print(len(jobs), 'mutants')
    if o.list:
        return
    done = set()
    if os.path.exists(o.out):
        for line in open(o.out):
            d = json.loads(line)
            done.add((d['file'], d['line'], d['what'], d['old'], d['new']))
    jobs = [j for j in jobs if (j[1], j[2][0], j[2][1], j[2][2][:300], j[2][3][:300]) not in done]
    with multiprocessing.Pool(o.workers, setup, (o.all, '/tmp/mut')) as pool, open(
            o.out, 'a') as f:
        for i, r in enumerate(pool.imap_unordered(one, jobs)):
            f.write(json.dumps(r) + '\n')
            f.flush()
            if i % 50 == 0:
                print(i, flush=True)


if __name__ == '__main__':
    main()
