"""Runner of the runtime monitors: drives the real code with generated
workloads, collects what the monitors observed and turns it into one verdict.

Verdicts: 0 held on everything observed, 1 violated (with a replay file),
2 inconclusive (the harness failed, a monitor was never reached, a watchdog
fired)."""
import collections
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CASE_SECONDS = 120


class Violation(BaseException):
    """An observed violation. Not an Exception, so that the code under test
    does not swallow it."""


class HarnessError(BaseException):
    pass


class CaseTimeout(BaseException):
    pass


class Ctx(object):
    """What one case may use: randomness, a scratch directory, and the
    recorders of the monitors."""

    def __init__(self, prop, seed, index, tier, scratch):
        self.prop, self.seed, self.index, self.tier = prop, seed, index, tier
        self.rng = random.Random('{}/{}/{}'.format(seed, prop, index))
        self._scratch = scratch
        self.counts = collections.Counter()
        self.trace = []       # what happened, for the replay file
        self.tags = set()     # shape of the case, for distinctness
        self.violation = None
        self.nontrivial = False

    # -- randomness
    def chance(self, p):
        return self.rng.random() < p

    def pick(self, seq):
        return self.rng.choice(list(seq))

    def scratch(self):
        path = os.path.join(self._scratch, 'case{}'.format(self.index))
        if os.path.isdir(path):
            shutil.rmtree(path)
        os.makedirs(path)
        return path

    # -- recorders
    def saw(self, event, n=1):
        """The monitors observed this event."""
        self.counts[event] += n

    def tag(self, *tags):
        self.tags.update(str(t) for t in tags)

    def log(self, *what):
        if len(self.trace) < 400:
            self.trace.append(' '.join(str(w)[:600] for w in what))

    def fail(self, message, *detail):
        for d in detail:
            self.log('  detail:', d)
        if self.violation is None:
            self.violation = str(message)
        raise Violation(str(message))

    def check(self, monitor, condition, message, *detail):
        """One evaluation of a monitor."""
        self.counts['monitor:' + monitor] += 1
        self.nontrivial = True
        if not condition:
            self.fail('{}: {}'.format(monitor, message), *detail)

    def refuses(self, monitor, exceptions, what, function, *args, **kwargs):
        """function must raise one of the exceptions."""
        self.counts['monitor:' + monitor] += 1
        self.nontrivial = True
        try:
            result = function(*args, **kwargs)
        except exceptions as err:
            self.log('refused as required ({}): {}'.format(what, type(err).__name__))
            return err
        except Exception as err:
            self.fail('{}: {} raised {} instead of {}'.format(
                monitor, what, type(err).__name__, exceptions), err)
        self.fail('{}: {} was accepted'.format(monitor, what), repr(result)[:300])

    def accepts(self, monitor, what, function, *args, **kwargs):
        """function must not raise."""
        self.counts['monitor:' + monitor] += 1
        self.nontrivial = True
        try:
            return function(*args, **kwargs)
        except Exception as err:
            self.log(traceback.format_exc()[-1500:])
            self.fail('{}: {} raised {}: {}'.format(
                monitor, what, type(err).__name__, str(err)[:300]))


def reset_globals():
    from mon import lib
    lib.reset_globals()


# What a user may have set for other reasons: options of xarray, the time zone.
# No result may depend on it.
SURROUNDINGS = {
    4: ('keep_attrs', True), 8: ('keep_attrs', False),
    1: ('TZ', 'EST5EDT,M3.2.0,M11.1.0'), 9: ('TZ', 'LHST-10:30LHDT-11,M10.1.0,M4.1.0')}


def surround(ctx, index):
    name, value = SURROUNDINGS.get(index % 11, (None, None))
    if name:
        ctx.log('surroundings', name, value)
        ctx.counts['surroundings ' + name] += 1
    import xarray
    xarray.set_options(keep_attrs=value if name == 'keep_attrs' else 'default')
    os.environ['TZ'] = value if name == 'TZ' else 'UTC'
    time.tzset()


def run_case(module, prop, seed, index, tier, scratch):
    """Runs one case, returns a plain dictionary."""
    ctx = Ctx(prop, seed, index, tier, scratch)
    directed = getattr(module, 'DIRECTED', ())
    if index < 0:
        function = directed[-index - 1]
    else:
        function = module.case
    result = {'index': index, 'status': 'held'}

    def on_alarm(signum, frame):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_SECONDS)
    try:
        reset_globals()
        surround(ctx, index)
        function(ctx)
        if ctx.violation is not None:  # swallowed by the code under test
            result.update(status='violated', message=ctx.violation)
    except Violation as err:
        result.update(status='violated', message=str(err))
    except CaseTimeout:
        result.update(status='inconclusive', message='case watchdog fired')
    except HarnessError as err:
        result.update(status='error', message=str(err))
    except BaseException as err:
        text = traceback.format_exc()
        frames = traceback.extract_tb(err.__traceback__)
        in_repo = any(
            os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)
            for f in frames)
        ctx.log(text[-3000:])
        if ctx.violation is not None:
            result.update(status='violated', message=ctx.violation)
        elif in_repo and isinstance(err, Exception):
            result.update(
                status='violated', message='unexpected {} from valid use: {}'.format(
                    type(err).__name__, str(err)[:300]))
        else:
            result.update(status='error', message=text[-2000:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        try:
            surround(ctx, 0)
            reset_globals()
        except BaseException as err:
            if result['status'] == 'held':
                result.update(status='violated', message='reset failed: {!r}'.format(err))
    result['counts'] = dict(ctx.counts)
    result['nontrivial'] = ctx.nontrivial
    result['sig'] = hashlib.sha1(
        '|'.join(sorted(ctx.tags)).encode()).hexdigest()[:12] if ctx.tags else ''
    result['tags'] = sorted(ctx.tags)
    if result['status'] != 'held' or index in (-1, 0, 1, 2):
        result['trace'] = ctx.trace
    return result


def worker(module, prop, seed, tier, indices, scratch, pipe, stop_at):
    """Child process: runs its cases, sends back aggregated observations."""
    out = {'counts': collections.Counter(), 'sigs': set(), 'cases': 0, 'bad': [],
           'samples': [], 'nontrivial': 0, 'skipped': 0}
    for index in indices:
        if time.time() > stop_at:
            out['skipped'] += 1
            continue
        r = run_case(module, prop, seed, index, tier, scratch)
        out['cases'] += 1
        out['counts'].update(r['counts'])
        if r['nontrivial']:
            out['nontrivial'] += 1
            out['sigs'].add(r['sig'] or str(index))
        if r['status'] != 'held':
            out['bad'].append(r)
            if len(out['bad']) >= 3:
                break
        elif 'trace' in r:
            out['samples'].append(
                {'index': index, 'tags': r['tags'][:40], 'trace': r['trace'][:12]})
    out['sigs'] = sorted(out['sigs'])
    out['counts'] = dict(out['counts'])
    data = json.dumps(out, default=str).encode()
    while data:
        n = os.write(pipe, data)
        data = data[n:]
    os.close(pipe)


def run_workers(module, prop, seed, tier, indices, deadline):
    n_workers = min(len(os.sched_getaffinity(0)), 8, max(1, len(indices)))
    scratch = os.environ['VERIF_SCRATCH']
    stop_at = time.time() + deadline
    children = []
    for w in range(n_workers):
        mine = indices[w::n_workers]
        path = os.path.join(scratch, 'w{}'.format(w))
        os.makedirs(path, exist_ok=True)
        r, pw = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(r)
                for other in children:
                    os.close(other[1])
                worker(module, prop, seed, tier, mine, path, pw, stop_at)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(pw)
        children.append((pid, r))
    results, problems = [], []
    import select
    buffers = {r: b'' for _, r in children}
    open_fds = set(buffers)
    hard = stop_at + CASE_SECONDS + 30
    while open_fds:
        ready, _, _ = select.select(list(open_fds), [], [], 1.0)
        for fd in ready:
            chunk = os.read(fd, 1 << 16)
            if chunk:
                buffers[fd] += chunk
            else:
                open_fds.discard(fd)
                os.close(fd)
        if time.time() > hard:
            for pid, _ in children:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            problems.append('worker watchdog fired')
            break
    for pid, r in children:
        _, status = os.waitpid(pid, 0)
        if status != 0:
            problems.append('worker ended with status {}'.format(status))
        try:
            results.append(json.loads(buffers[r].decode()))
        except ValueError:
            problems.append('worker sent no result')
    return results, problems


def load_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get('findings', []) if e['property'] == prop]


def main(argv):
    prop = argv[0]
    start = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    import sympl
    if not os.path.realpath(sympl.__file__).startswith(os.path.realpath(REPO) + os.sep):
        print('inconclusive: sympl was loaded from', sympl.__file__)
        sys.exit(2)
    module = importlib.import_module('mon.' + prop.lower())
    scratch = os.environ['VERIF_SCRATCH']

    if '--replay' in argv or '--one' in argv:
        if '--replay' in argv:
            with open(argv[argv.index('--replay') + 1]) as f:
                rep = json.load(f)
            seed, index, tier = rep['seed'], rep['index'], rep['tier']
        else:
            index = int(argv[argv.index('--one') + 1])
        r = run_case(module, prop, seed, index, tier, scratch)
        print('\n'.join(r.get('trace', [])))
        print(r['status'], r.get('message', ''))
        if r['status'] == 'violated':
            print('VIOLATION property={} replay={}'.format(
                prop, argv[argv.index('--replay') + 1] if '--replay' in argv else '-'))
        sys.exit({'held': 0, 'violated': 1}.get(r['status'], 2))

    n = module.CASES[tier]
    if '--cases' in argv:
        n = int(argv[argv.index('--cases') + 1])
    directed = getattr(module, 'DIRECTED', ())
    indices = [-(i + 1) for i in range(len(directed))] + list(range(n))
    deadline = 420 if tier == 'quick' else 3000
    results, problems = run_workers(module, prop, seed, tier, indices, deadline)

    counts = collections.Counter()
    sigs, bad, samples = set(), [], []
    cases = nontrivial = skipped = 0
    for out in results:
        counts.update(out['counts'])
        sigs.update(out['sigs'])
        bad.extend(out['bad'])
        samples.extend(out['samples'])
        cases += out['cases']
        nontrivial += out['nontrivial']
        skipped += out['skipped']

    findings = load_findings(prop)
    known, violations = [], []
    for b in bad:
        if b['status'] != 'violated':
            problems.append('case {}: {}: {}'.format(
                b['index'], b['status'], b['message'][-700:]))
            continue
        match = [f for f in findings if f['match'] in b['message']]
        (known if match else violations).append(b)
        b['finding'] = match[0] if match else None
    required = getattr(module, 'REQUIRED', ())
    for name in required:
        if counts.get(name, 0) == 0 and not bad and '--cases' not in argv:
            problems.append('monitor or event never reached: {}'.format(name))
    if cases == 0 or not any(k.startswith('monitor:') for k in counts):
        problems.append('no monitor was evaluated')
    if skipped > 0:
        print('note: {} cases skipped at the time limit'.format(skipped))
        if cases < 0.2 * (cases + skipped):
            problems.append('too few cases ran within the time limit')

    evidence = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': getattr(module, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': cases,
            'distinct_nontrivial': len(sigs),
            'rule': module.RULE,
            'samples': sorted(samples, key=lambda s: s['index'])[:6],
            'monitor_evaluations': {
                k[8:]: v for k, v in sorted(counts.items()) if k.startswith('monitor:')},
            'events_observed': {
                k: v for k, v in sorted(counts.items()) if not k.startswith('monitor:')},
            'cases_reaching_a_monitor': nontrivial,
            'cases_skipped_at_time_limit': skipped,
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', ())),
        'wall_s': round(time.time() - start, 2),
        'violations': len(violations),
    }
    if problems:
        evidence['coverage']['problems'] = problems[:10]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)

    for f in {json.dumps(b['finding'], sort_keys=True) for b in known}:
        f = json.loads(f)
        print('KNOWN-FINDING: property={} {}'.format(prop, f['what']))
    print('{} {} seed={}: {} cases, {} distinct, {} monitor evaluations, {:.1f}s'.format(
        prop, tier, seed, cases, len(sigs),
        sum(v for k, v in counts.items() if k.startswith('monitor:')),
        time.time() - start))
    if violations:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        violations.sort(key=lambda b: (b['index'] >= 0, abs(b['index'])))
        first = violations[0]
        path = os.path.join(VERIF, 'replays', '{}-{}-{}.json'.format(
            prop, seed, first['index']))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'tier': tier,
                       'index': first['index'], 'message': first['message'],
                       'trace': first.get('trace', []),
                       'all_messages': [v['message'] for v in violations][:20]},
                      f, indent=1, default=str)
        print('witness:', first['message'][:500])
        print('VIOLATION property={} replay={}'.format(prop, path))
        sys.exit(1)
    if problems:
        for p in problems[:3]:
            print('inconclusive:', p)
        sys.exit(2)
    sys.exit(0)
