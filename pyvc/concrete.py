"""Concrete runs of the real code: replay search for refuted obligations and bounded stand-ins for functions that the
verifier cannot reach.  Everything found here is a real input on which the real code breaks the property."""
import contextlib
import hashlib
import json
import multiprocessing
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

from .interp import REPO

VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))


class Fail(Exception):
    def __init__(self, what, **data):
        super().__init__(what)
        self.what, self.data = what, data


class Hang(BaseException):
    pass


class Stop(BaseException):
    """enough violations, or out of time"""


class Oracle:
    """run(ctx) generates cases and compares the real code with an independent reference."""

    def __init__(self, name, run, functions=(), bound='', quick_s=25, thorough_s=150, unprivileged=False, case_s=25,
                 kind='bounded stand-in and replay search'):
        self.name, self.run, self.functions, self.bound = name, run, list(functions), bound
        self.quick_s, self.thorough_s, self.unprivileged, self.case_s, self.kind = quick_s, thorough_s, unprivileged, case_s, kind


def short(x, n=400):
    r = x if isinstance(x, str) else repr(x)
    return r if len(r) <= n else r[: n - 20] + f'...({len(r)} chars)'


def blame(tb):
    """'repo' if the exception comes out of repository code, else 'harness'."""
    frames = traceback.extract_tb(tb)
    for f in reversed(frames):
        p = os.path.realpath(f.filename)
        if p.startswith(os.path.realpath(REPO) + os.sep):
            return 'repo'
        if p.startswith(VERIF + os.sep):
            return 'harness'
    return 'harness'


class Case:
    def __init__(self, ctx, inp):
        self.ctx, self.inp = ctx, inp

    def check(self, ok, what, **data):
        if not ok:
            raise Fail(what, **data)

    def equal(self, got, want, what, **data):
        if not (type(got) is type(want) or isinstance(got, type(want)) or isinstance(want, type(got))) or got != want:
            raise Fail(what, expected=want, got=got, **data)

    def raises(self, f, excs, what):
        try:
            r = f()
        except excs:
            return
        raise Fail(what, expected=f'one of {excs}', got=r)


class Ctx:
    def __init__(self, oracle, tier, seed, scratch, only_case=None):
        self.o, self.tier, self.seed, self.scratch, self.only = oracle, tier, seed, scratch, only_case
        self.rng = random.Random(f'{oracle.name}/{seed}')
        self.deadline = time.time() + (oracle.quick_s if tier == 'quick' else oracle.thorough_s)
        self.n = 0
        self.seen = set()
        self.samples = []
        self.violations = []
        self.errors = []
        self.skipped = 0
        self.exhaustive = False
        self.timed_out = False
        self.thorough = tier == 'thorough'

    def time_left(self):
        return self.deadline - time.time()

    def out_of_time(self):
        if time.time() > self.deadline:
            self.timed_out = True
            return True
        return False

    def budget(self, quick, thorough):
        return thorough if self.thorough else quick

    def tmp(self):
        return tempfile.mkdtemp(dir=self.scratch)

    @contextlib.contextmanager
    def case(self, inp, sig=None):
        """One evaluation.  inp: plain data that describes the input.  sig: identifies the input in known-findings."""
        self.n += 1
        number = self.n
        if self.only is not None and number != self.only:
            # the body cannot be skipped from a context manager; it simply runs as well
            pass
        key = hashlib.md5(repr(inp).encode('utf-8', 'surrogatepass')).digest()
        self.seen.add(key)
        if len(self.samples) < 3 or (len(self.samples) < 6 and self.n % 997 == 0):
            self.samples.append(short(inp))
        c = Case(self, inp)

        def on_alarm(_s, _f):
            raise Hang()

        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, self.o.case_s)
        v = None
        try:
            yield c
        except Fail as e:
            v = {'what': e.what, **{k: short(x, 1500) for k, x in e.data.items()}}
        except Hang:
            v = {'what': f'no answer within {self.o.case_s} s', 'stack': traceback.format_exc()[-1500:]}
        except (KeyboardInterrupt, Stop):
            raise
        except BaseException as e:  # pylint: disable=broad-except
            text = traceback.format_exc()[-2500:]
            if blame(e.__traceback__) == 'repo':
                v = {'what': f'{type(e).__name__}: {short(str(e))} escapes', 'traceback': text}
            else:
                self.errors.append(text)
                if len(self.errors) > 20:
                    raise Stop() from None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        if v is not None:
            v.update(oracle=self.o.name, case=number, input=short(inp, 4000), sig=sig or short(inp, 300))
            self.violations.append(v)
            if len(self.violations) >= 40:
                raise Stop()


def _silence():
    import logging

    logging.disable(logging.CRITICAL)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    if not os.environ.get('PYVC_VERBOSE'):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)


def _child(oracle, tier, seed, scratch, conn, only):
    os.setsid()
    ctx = None
    err = None
    try:
        _silence()
        if oracle.unprivileged and os.getuid() == 0:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        os.environ['HOME'] = scratch
        os.environ['TMPDIR'] = scratch
        os.environ['XDG_CACHE_HOME'] = os.path.join(scratch, 'cache')
        tempfile.tempdir = scratch
        os.chdir(scratch)
        with contextlib.suppress(Exception):
            resource.setrlimit(resource.RLIMIT_AS, (40 << 30, 40 << 30))
        ctx = Ctx(oracle, tier, seed, scratch, only)
        t0 = time.time()
        try:
            oracle.run(ctx)
        except Stop:
            pass
        except BaseException as e:  # pylint: disable=broad-except
            text = traceback.format_exc()[-2500:]
            if blame(e.__traceback__) == 'repo':
                ctx.errors.append('outside a case: ' + text)
            else:
                ctx.errors.append(text)
        res = {'name': oracle.name, 'evaluations': ctx.n, 'distinct': len(ctx.seen), 'samples': ctx.samples,
               'violations': ctx.violations, 'errors': ctx.errors[:5], 'wall': time.time() - t0,
               'exhaustive': ctx.exhaustive and not ctx.timed_out, 'timed_out': ctx.timed_out, 'bound': oracle.bound,
               'functions': [], 'kind': oracle.kind}
    except BaseException:  # pylint: disable=broad-except
        err = traceback.format_exc()[-2500:]
        res = {'name': oracle.name, 'evaluations': 0, 'distinct': 0, 'samples': [], 'violations': [], 'errors': [err],
               'wall': 0, 'exhaustive': False, 'timed_out': False, 'bound': oracle.bound, 'functions': [],
               'kind': oracle.kind}
    try:
        with open(os.path.join(scratch, '.result.pickle.tmp'), 'wb') as f:
            pickle.dump(res, f)
        os.rename(os.path.join(scratch, '.result.pickle.tmp'), os.path.join(scratch, '.result.pickle'))
    finally:
        with contextlib.suppress(Exception):
            conn.close()
        os._exit(0)


class Running:
    def __init__(self, oracle, tier, seed, only=None):
        self.o = oracle
        self.scratch = tempfile.mkdtemp(prefix='vchk.', dir='/tmp')
        os.chmod(self.scratch, 0o777)
        ctx = multiprocessing.get_context('fork')
        self.a, b = ctx.Pipe(False)
        sys.stdout.flush()
        self.p = ctx.Process(target=_child, args=(oracle, tier, seed, self.scratch, b, only))
        self.p.start()
        b.close()
        self._result = None
        self.kill_at = time.time() + (oracle.quick_s if tier == 'quick' else oracle.thorough_s) * 1.5 + oracle.case_s + 60

    def done(self):
        return not self.p.is_alive() or time.time() > self.kill_at

    finished = done

    def result(self):
        if self._result is None:
            self._result = self._collect()
        return self._result

    def _collect(self):
        self.p.join(max(0, self.kill_at - time.time()))
        killed = False
        if self.p.is_alive():
            killed = True
        with contextlib.suppress(ProcessLookupError, PermissionError):
            os.killpg(self.p.pid, signal.SIGKILL)
        with contextlib.suppress(Exception):
            self.p.kill()
        self.p.join()
        path = os.path.join(self.scratch, '.result.pickle')
        res = None
        if os.path.exists(path):
            with open(path, 'rb') as f:
                res = pickle.load(f)
                res['functions'] = self.o.functions
        shutil.rmtree(self.scratch, ignore_errors=True)
        if res is None:
            res = {'name': self.o.name, 'evaluations': 0, 'distinct': 0, 'samples': [], 'violations': [],
                   'errors': ['oracle process ' + ('killed: no answer in time' if killed else 'died')], 'wall': 0,
                   'exhaustive': False, 'timed_out': killed, 'bound': self.o.bound, 'functions': self.o.functions,
                   'kind': self.o.kind}
        return res
