"""Runs verification units in parallel and collects reports."""
import multiprocessing
import os
import sys
import time
import traceback

from .values import PyRaise
from .vc import Report, explore


class Unit:
    """One function verified against its contract.  run(vc) builds the pre-state, executes and proves."""

    def __init__(self, name, run, functions=(), **opts):
        self.name, self.run, self.functions, self.opts = name, run, list(functions), opts


def attempt(thunk):
    """-> ('ok', value) or ('exc', PyRaise)"""
    try:
        return 'ok', thunk()
    except PyRaise as e:
        return 'exc', e


def _run(unit):
    try:
        rep = explore(unit.name, unit.run, **unit.opts)
    except Exception as e:  # pylint: disable=broad-except
        rep = Report(unit.name)
        rep.error = f'{type(e).__name__}: {e} ' + traceback.format_exc()[-800:]
    return rep


def _child(unit, conn):
    try:
        import gc

        gc.disable()
        rep = _run(unit)
        conn.send({
            'name': rep.name, 'status': rep.status, 'paths': rep.paths, 'reached': rep.reached,
            'obligations': [o.as_dict() for o in rep.obligations], 'unsupported': rep.unsupported,
            'bounded': sorted(set(rep.bounded)), 'wall': rep.wall, 'trusted': sorted(rep.trusted),
            'inlined': sorted(rep.inlined), 'assumed_contracts': sorted(rep.assumed_contracts),
            'sources': rep.sources, 'error': rep.error,
        })
    finally:
        conn.close()
        os._exit(0)


class Pool:
    """Every unit runs in its own forked process."""

    def __init__(self, units, jobs=8, limit_s=700):
        self.units, self.todo, self.jobs, self.limit_s = units, list(units), jobs, limit_s
        self.results, self.running, self.t0 = {}, [], time.time()
        self.ctx = multiprocessing.get_context('fork')

    def step(self):
        """-> True while there is work"""
        sys.stdout.flush()
        while self.todo and len(self.running) < self.jobs:
            u = self.todo.pop(0)
            a, b = self.ctx.Pipe(False)
            p = self.ctx.Process(target=_child, args=(u, b))
            p.start()
            b.close()
            self.running.append((u, p, a, time.time()))
        still = []
        for u, p, a, started in self.running:
            if a.poll(0.02):
                try:
                    self.results[u.name] = a.recv()
                except EOFError:
                    self.results[u.name] = _dead(u, 'verifier process died')
                p.join()
            elif not p.is_alive():
                self.results[u.name] = _dead(u, 'verifier process died')
            elif time.time() - self.t0 > self.limit_s or time.time() - started > u.opts.get('kill_s', 240):
                p.kill()
                p.join()
                self.results[u.name] = _dead(u, 'verifier time budget exhausted')
            else:
                still.append((u, p, a, started))
        self.running = still
        if time.time() - self.t0 > self.limit_s:
            for u in self.todo:
                self.results[u.name] = _dead(u, 'verifier time budget exhausted')
            self.todo = []
        return bool(self.todo or self.running)

    def reports(self):
        return [self.results[u.name] for u in self.units]


def verify(units, jobs=8, limit_s=700):
    pool = Pool(units, jobs, limit_s)
    while pool.step():
        pass
    return pool.reports()


def _dead(u, why):
    return {'name': u.name, 'status': 'error', 'paths': 0, 'reached': 0, 'obligations': [], 'unsupported': None,
            'bounded': [], 'wall': 0.0, 'trusted': [], 'inlined': [], 'assumed_contracts': [], 'sources': {},
            'error': why}


def show(reports, verbose=False):
    for r in reports:
        n = len(r['obligations'])
        d = sum(o['status'] == 'discharged' for o in r['obligations'])
        print(f"{r['status']:11} {r['name']}  obligations {d}/{n} paths {r['paths']} reached {r['reached']} "
              f"{r['wall']:.1f}s {r['unsupported'] or ''} {r['error'] or ''} {r['bounded'] or ''}")
        for o in r['obligations']:
            if o['status'] != 'discharged' or verbose:
                print('     ', o['status'], o['name'], f"{o['seconds']}s", o['model'] if o['status'] != 'discharged' else '', o['detail'])
