"""C24: interrupting or failing a restart store."""
import ctypes
import errno
import os
import pickle
import shutil
import signal
import sys

import numpy as np
from sympl import DataArray, RestartMonitor
from mon.core import REPO, HarnessError
from mon.lib import DIM_NAMES, Values
from mon.c23 import some_time

CASES = {'quick': 28, 'thorough': 700}
LEVEL = 'fault_enumeration'
REQUIRED = ('monitor:recovery', 'monitor:later store', 'monitor:invalid state',
            'monitor:error reported', 'crash at line', 'crash at call', 'crash before syscall',
            'crash after syscall', 'crash in torn write', 'error at line', 'error at call',
            'error of syscall', 'disk full', 'with previous', 'without previous',
            'old state found', 'new state found')
RULE = ('for random pairs of previous and new state: the process is ended, or an error raised, '
        'at every executed line of sympl, at every call from sympl into compiled or library '
        'code, and before, in and after every file system call of the store; then another '
        'process loads. Distinct by state, kind of point and point.')
ASSUMPTIONS = ['a crash ends the process, the operating system goes on',
               'removing a file works even if writing fails']
ROOT = os.path.realpath(REPO) + os.sep


class Fault(Exception):
    pass


ERRORS = [Fault, OSError, MemoryError, KeyboardInterrupt, ValueError]


def small_state(ctx, vals):
    state = {}
    for n in ctx.rng.sample(['air_temperature', 'q', 'T', 'cloud'], ctx.rng.randint(1, 2)):
        dims = ctx.rng.sample(DIM_NAMES[:3], ctx.rng.randint(0, 2))
        shape = [ctx.pick([1, 2, 3, 40]) for d in dims]
        shape = [{'x': 3, 'y': 2, 'z': 40}[d] for d in dims]
        state[n] = DataArray(vals.take(shape, ctx.pick([np.float64, np.int32])), dims=dims,
                             attrs={'units': ctx.pick(['m', 'K', ''])})
    state['time'] = some_time(ctx)
    return state


def freeze(state):
    return {n: v if n == 'time' else (tuple(v.dims), np.array(v.values), dict(v.attrs))
            for n, v in state.items()}


def same(a, b):
    if set(a) != set(b):
        return False
    for n in a:
        if n == 'time':
            if a[n] != b[n]:
                return False
        elif a[n][0] != b[n][0] or a[n][2] != b[n][2] or a[n][1].dtype != b[n][1].dtype or \
                not np.array_equal(a[n][1], b[n][1]):
            return False
    return True


def in_child(function):
    """Runs function in a forked process. Returns (exit status, result)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            try:
                result = ('ok', function())
            except BaseException as err:
                result = ('raised', '{}: {}'.format(type(err).__name__, str(err)[:300]))
            data = pickle.dumps(result)
            while data:
                n = os.write(w, data)
                data = data[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b''
    try:
        while True:
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            data += chunk
        os.close(r)
    except BaseException:  # the watchdog
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    _, status = os.waitpid(pid, 0)
    return status, pickle.loads(data) if data else None


class Points(object):
    """Counts execution points in sympl's code and acts at one of them."""

    def __init__(self, what, action=None, at=-1):
        self.what, self.action, self.at, self.n = what, action, at, 0

    def hit(self):
        self.n += 1
        if self.n == self.at:
            sys.settrace(None)
            sys.setprofile(None)
            self.action()

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        if event == 'line':
            self.hit()
        return self.trace

    def profile(self, frame, event, arg):
        if event in ('c_call', 'c_return'):
            if frame.f_code.co_filename.startswith(ROOT):
                self.hit()
        elif event in ('call', 'return'):
            # library code called from sympl
            back = frame.f_back
            if back is not None and back.f_code.co_filename.startswith(ROOT) and \
                    not frame.f_code.co_filename.startswith(ROOT):
                self.hit()

    def run(self, function):
        if self.what == 'line':
            sys.settrace(self.trace)
        else:
            sys.setprofile(self.profile)
        try:
            return function()
        finally:
            sys.settrace(None)
            sys.setprofile(None)


try:
    SHIM = ctypes.CDLL(None)
    SHIM.iofault_arm.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int]
    SHIM.iofault_disarm.restype = ctypes.c_long
except AttributeError:
    SHIM = None


class Store(object):
    def __init__(self, ctx):
        if SHIM is None:
            raise HarnessError('the file system shim is not loaded')
        self.ctx = ctx
        self.vals = Values(ctx)
        self.folder = ctx.scratch()
        self.path = os.path.join(self.folder, 'restart.nc')
        self.old, self.new = None, small_state(ctx, self.vals)
        self.saved = None
        if ctx.chance(0.8):
            ctx.saw('with previous')
            self.old = small_state(ctx, self.vals)
            status, result = in_child(lambda: RestartMonitor(self.path).store(self.old))
            ctx.check('later store', result and result[0] == 'ok',
                      'a plain store gave {} {}'.format(status, result))
            with open(self.path, 'rb') as f:
                self.saved = f.read()
        else:
            ctx.saw('without previous')
        ctx.tag('old' if self.old else 'none', *[
            '{}d{}'.format(v.ndim, v.dtype) for n, v in self.new.items() if n != 'time'])
        ctx.log('old', self.old and sorted(self.old), 'new', sorted(self.new))

    def restore(self):
        for name in os.listdir(self.folder):
            os.remove(os.path.join(self.folder, name))
        if self.saved is not None:
            with open(self.path, 'wb') as f:
                f.write(self.saved)

    def store(self):
        RestartMonitor(self.path).store(self.new)

    def loaded(self):
        """What another process finds: 'old', 'new', 'none' or a description."""
        def look():
            return freeze(RestartMonitor(self.path).load())
        status, result = in_child(look)
        if result is None:
            return 'loading died with status {}'.format(status)
        if result[0] == 'raised':
            if self.old is None and not os.path.exists(self.path):
                return 'none'
            return 'loading raised ' + result[1]
        if same(result[1], freeze(self.new)):
            return 'new'
        if self.old is not None and same(result[1], freeze(self.old)):
            return 'old'
        return 'a mixture: {}'.format(str(result[1])[:300])

    def verify(self, what, allowed):
        found = self.loaded()
        if found in ('old', 'new'):
            self.ctx.saw(found + ' state found')
        self.ctx.check('recovery', found in allowed, 'after {}: {}'.format(what, found),
                       os.listdir(self.folder))
        return found

    def expected(self):
        return ('new', 'none') if self.old is None else ('new', 'old')

    def count(self, what):
        def run():
            p = Points(what)
            p.run(self.store)
            return p.n
        status, result = in_child(run)
        self.restore()
        if not result or result[0] != 'ok':
            self.ctx.fail('later store: a plain store gave {} {}'.format(status, result))
        return result[1]

    def later(self, what):
        """After an error, storing works."""
        status, result = in_child(self.store)
        self.ctx.check('later store', result and result[0] == 'ok',
                       'storing after {} gave {}'.format(what, result))
        self.verify('storing again after ' + what, ('new',))


def crash_case(ctx, s, what):
    n = s.count(what)
    for k in range(1, n + 1):
        def run():
            Points(what, lambda: os._exit(77), k).run(s.store)
        status, result = in_child(run)
        if os.WEXITSTATUS(status) != 77:
            raise HarnessError('no crash at {} {} of {}: {} {}'.format(
                what, k, n, status, result))
        ctx.saw('crash at ' + what)
        s.verify('a crash at {} {} of {}'.format(what, k, n), s.expected())
        s.restore()


def error_case(ctx, s, what):
    n = s.count(what)
    for k in range(1, n + 1):
        error = ctx.pick(ERRORS)

        def run():
            def act():
                raise error('injected')
            try:
                Points(what, act, k).run(s.store)
            except BaseException as err:
                if type(err) is not error:
                    # sympl may turn it into its own error
                    first = 'as {}'.format(type(err).__name__)
                else:
                    first = 'raised'
                del err
            else:
                first = 'swallowed'
            # a later store by the same process
            found = freeze(RestartMonitor(s.path).load()) if os.path.exists(s.path) else None
            again = freeze(s.new)
            RestartMonitor(s.path).store(s.new)
            after = freeze(RestartMonitor(s.path).load())
            return first, found, same(after, again)
        status, result = in_child(run)
        ctx.saw('error at ' + what)
        where = '{} at {} {} of {}'.format(error.__name__, what, k, n)
        ctx.check('later store', result is not None and result[0] == 'ok',
                  'after {}: {} {}'.format(where, status, result), os.listdir(s.folder))
        first, found, again = result[1]
        if first == 'swallowed':
            ctx.saw('error swallowed')
        allowed = [None] if s.old is None else [freeze(s.old)]
        allowed.append(freeze(s.new))
        ctx.check('recovery', any(
            (found is None and a is None) or (found is not None and a is not None and
                                              same(found, a)) for a in allowed),
            'after {} the restart is {}'.format(where, str(found)[:300]))
        if first == 'swallowed':
            ctx.check('error reported', found is not None and same(found, freeze(s.new)),
                      '{} was not reported but the state was not stored'.format(where))
        ctx.check('later store', again, 'wrong state after {}'.format(where))
        s.verify('storing again after ' + where, ('new',))
        s.restore()


def syscall_case(ctx, s, mode):
    """1 crash before, 2 crash after, 3 torn write, 4 one error, 5 errors from then on"""
    def counting():
        SHIM.iofault_arm(0, -1, 0)
        s.store()
        return SHIM.iofault_disarm()
    status, result = in_child(counting)
    s.restore()
    n = result[1]
    if n < 3:
        raise HarnessError('the shim saw {} file system calls'.format(n))
    ctx.saw('syscalls of a store', n)
    for k in range(1, n + 1):
        code = ctx.pick([errno.ENOSPC, errno.EIO, errno.EACCES])

        def run():
            SHIM.iofault_arm(mode, k, code)
            try:
                s.store()
                return 'stored'
            except Exception as err:
                return 'raised {}'.format(type(err).__name__)
            finally:
                SHIM.iofault_disarm()
        status, result = in_child(run)
        what = {1: 'a crash before', 2: 'a crash after', 3: 'a crash in', 4: 'an error of',
                5: 'errors from'}[mode] + ' file system call {} of {}'.format(k, n)
        if mode in (1, 2, 3):
            ctx.saw({1: 'crash before syscall', 2: 'crash after syscall',
                     3: 'crash in torn write'}[mode])
            s.verify(what, s.expected())
        else:
            ctx.saw('error of syscall' if mode == 4 else 'disk full')
            found = s.verify(what, s.expected())
            if result is not None and result[1] == 'stored':
                ctx.check('error reported', found == 'new',
                          '{} was not reported but the state was not stored'.format(what))
            if result is not None and result[1] != 'stored' and mode == 5:
                ctx.check('error reported', s.old is None or found in ('old', 'new'), what)
            if result is not None:   # HDF5 may end a process that cannot close a file
                s.later(what)
        s.restore()


class Unusable(object):
    pass


def invalid_case(ctx, s):
    """States that cannot be stored."""
    for _ in range(6):
        bad = dict(s.new)
        kind = ctx.pick(['no time', 'not an array', 'bad time', 'objects', 'empty name',
                         'lengths', 'attribute'])
        if kind == 'no time':
            del bad['time']
        elif kind == 'not an array':
            bad['zzz'] = ctx.pick(['text', None, Unusable(), 3])
        elif kind == 'bad time':
            bad['time'] = ctx.pick(['yesterday', None, 5])
        elif kind == 'objects':
            bad['zzz'] = DataArray(np.array([Unusable()], dtype=object), dims=['u'],
                                   attrs={'units': 'm'})
        elif kind == 'empty name':
            bad[''] = DataArray(1., attrs={'units': 'm'})
        elif kind == 'lengths':
            bad['zz1'] = DataArray(np.zeros(2), dims=['u'], attrs={'units': 'm'})
            bad['zz2'] = DataArray(np.zeros(3), dims=['u'], attrs={'units': 'm'})
        else:
            bad['zzz'] = DataArray(1., attrs={'units': 'm', 'bad': Unusable()})

        def run():
            try:
                RestartMonitor(s.path).store(bad)
            except Exception:
                pass
            else:
                return 'accepted'
            RestartMonitor(s.path).store(s.new)
            return 'refused'

        def only():
            try:
                RestartMonitor(s.path).store(bad)
            except Exception:
                return 'refused'
            return 'accepted'
        status, result = in_child(only)
        ctx.check('invalid state', result == ('ok', 'refused'),
                  'a state with {} was {}'.format(kind, result))
        s.verify('refusing a state with ' + kind, ('none',) if s.old is None else ('old',))
        s.later('refusing a state with ' + kind)
        s.restore()
        status, result = in_child(run)
        ctx.check('later store', result == ('ok', 'refused'),
                  'storing after refusing a state with {} gave {}'.format(kind, result))
        s.verify('storing after refusing a state with ' + kind, ('new',))
        s.restore()


MODES = [
    lambda ctx, s: crash_case(ctx, s, 'line'), lambda ctx, s: crash_case(ctx, s, 'call'),
    lambda ctx, s: error_case(ctx, s, 'line'), lambda ctx, s: error_case(ctx, s, 'call'),
    lambda ctx, s: [syscall_case(ctx, s, m) for m in (1, 2, 3)],
    lambda ctx, s: [syscall_case(ctx, s, m) for m in (4, 5)],
    invalid_case]


def case(ctx):
    s = Store(ctx)
    mode = ctx.index % len(MODES)
    ctx.tag('mode{}'.format(mode))
    MODES[mode](ctx, s)
    shutil.rmtree(s.folder)
