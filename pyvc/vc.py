"""Verification-condition generation: path exploration by re-execution, obligations, solver back ends."""
import hashlib
import os
import time

import z3

from .values import *  # noqa: F403
from .values import PathEnd, PyRaise, SBool, SBytes, SInt, SList, SStr, SVal, Unsupported, Val, zb, zi

FEAS_MS = 150


class Obligation:
    def __init__(self, name, status, seconds, backend, model=None, detail=''):
        self.name, self.status, self.seconds, self.backend = name, status, seconds, backend
        self.model, self.detail = model or {}, detail

    def as_dict(self):
        return {'name': self.name, 'status': self.status, 'seconds': round(self.seconds, 3),
                'backend': self.backend, 'model': self.model, 'detail': self.detail}


class Report:
    """Result of verifying one function against its contract."""

    def __init__(self, name):
        self.name = name
        self.obligations = []
        self.paths = 0
        self.reached = 0
        self.unsupported = None
        self.bounded = []
        self.wall = 0.0
        self.trusted = set()
        self.inlined = set()
        self.assumed_contracts = set()
        self.sources = {}
        self.error = None

    @property
    def failed(self):
        return [o for o in self.obligations if o.status != 'discharged']

    @property
    def status(self):
        if self.error:
            return 'error'
        if self.unsupported:
            return 'unsupported'
        if self.failed:
            return 'failed'
        if not self.obligations or not self.reached:
            return 'vacuous'
        if self.bounded:
            return 'bounded'
        return 'proved'


class VC:
    def __init__(self, report, prefix, opts):
        self.report = report
        self.prefix = prefix
        self.opts = opts
        self.decisions = []
        self.pos = 0
        self.pending = []
        self.solver = z3.Solver()
        self.solver.set('timeout', opts.get('feas_ms', FEAS_MS))
        self.facts = []
        self.counter = {}
        self.serial = 0
        self.writes = []
        self.roots = []
        self.named = {}
        self.where = ''
        self.env = {}
        self.ghost = {}
        self.fuel = opts.get('fuel', 60000)
        self.scoped = 0

    # ---- fresh symbols -------------------------------------------------------------------------------------
    def name(self, base):
        if self.scoped:
            raise Unsupported('a comprehension body needs a fresh symbol')
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return f'{base}!{n}' if n else base

    def int(self, base):
        z = z3.Int(self.name(base))
        return SInt(z)

    def nat(self, base):
        r = self.int(base)
        self.assume(r.z >= 0)
        return r

    def bool(self, base):
        return SBool(z3.Bool(self.name(base)))

    def str(self, base):
        return SStr(z3.String(self.name(base)))

    def val(self, base):
        return SVal(z3.Const(self.name(base), Val))

    def func(self, base, *sorts):
        return z3.Function(self.name(base), *sorts)

    def bytes(self, base, length=None):
        f = z3.Function(self.name(base + '_at'), z3.IntSort(), z3.IntSort())
        if length is None:
            n = z3.Int(self.name(base + '_len'))
            self.assume(n >= 0)
        else:
            n = zi(length)
        return SBytes(n, lambda i: f(i))

    def list_int(self, base, mutable=True, length=None):
        f = z3.Function(self.name(base + '_el'), z3.IntSort(), z3.IntSort())
        if length is None:
            n = z3.Int(self.name(base + '_len'))
            self.assume(n >= 0)
        else:
            n = zi(length)
        r = self.new(SList(n, lambda i: SInt(f(i)), mutable, base))
        r.fn = f
        return r

    def skolem(self, base='k'):
        return z3.Int(self.name(base))

    def new(self, x):
        self.serial += 1
        x.serial = self.serial
        return x

    # ---- path condition ------------------------------------------------------------------------------------
    def assume(self, c, name=''):
        c = zb(c)
        if z3.is_true(c):
            return
        if self.scoped:
            raise Unsupported('a comprehension body assumes something')
        self.facts.append(c)
        self.solver.add(c)

    def feasible(self, c):
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        return r != z3.unsat

    def under(self, cond):
        """Evaluate a term under a local assumption: branches must be forced by it, nothing may be assumed or made."""
        vc = self

        class Scope:
            def __enter__(self):
                vc.solver.push()
                vc.solver.add(cond)
                vc.scoped += 1

            def __exit__(self, *a):
                vc.scoped -= 1
                vc.solver.pop()

        return Scope()

    def in_replay(self):
        return self.pos < len(self.prefix)

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(zb(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.scoped:
            t = self.feasible(c)
            if t and self.feasible(z3.Not(c)):
                raise Unsupported('comprehension body branches on a symbolic value')
            return t
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            t = self.feasible(c)
            f = self.feasible(z3.Not(c))
            if not t and not f:
                raise PathEnd('infeasible')
            if t and f:
                self.pending.append(self.decisions + [False])
                d = True
            else:
                d = t
        self.decisions.append(d)
        self.assume(c if d else z3.Not(c))
        return d

    def choose(self, what='choice'):
        """Nondeterministic choice of the environment: both outcomes are explored."""
        c = z3.Bool(self.name('env_' + what))
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            d = self.prefix[i]
        else:  # a fresh symbol: both outcomes are possible
            self.pending.append(self.decisions + [False])
            d = True
        self.decisions.append(d)
        self.assume(c if d else z3.Not(c))
        return d

    def pick(self, n, what='pick'):
        for k in range(n - 1):
            if self.choose(f'{what}{k}'):
                return k
        return n - 1

    def concretize_bool(self, c):
        return self.branch(c)

    # ---- obligations ---------------------------------------------------------------------------------------
    def prove(self, c, name):
        c = zb(c)
        full = f'{self.report.name}: {name}'
        if not self.in_replay():
            self._discharge(c, full)
        self.assume(c)

    def _discharge(self, c, full):
        t0 = time.time()
        c = z3.simplify(c)
        if z3.is_true(c):
            self.report.obligations.append(Obligation(full, 'discharged', time.time() - t0, 'simplify'))
            return
        goal = z3.Not(c)
        status, backend, model = 'unknown', 'z3', None
        budget = self.opts.get('timeout_ms', 30000)
        failed = sum(o.status != 'discharged' for o in self.report.obligations)
        if failed:  # the unit has failed already: look for further failures only briefly
            budget = min(budget, 6000 if failed < 3 else 1500)
        for attempt, (ms, seed) in enumerate(((min(self.opts.get('z3_ms', 4000), budget), 0), (budget, 7), (budget, 23))):
            s = z3.Solver()
            s.set('timeout', ms)
            if seed:
                s.set('random_seed', seed)
            s.add(*self.facts)
            s.add(goal)
            r = s.check()
            if r == z3.unsat:
                status = 'discharged'
                break
            if r == z3.sat:
                status, model = 'refuted', self._model(s.model())
                break
            if failed > 2:
                break
            if attempt == 0 and self.opts.get('cvc5', True):
                r5 = cvc5_check(self.facts + [goal], min(budget, 15000))
                if r5 == 'unsat':
                    status, backend = 'discharged', 'cvc5'
                    break
        else:
            status = 'unknown'
        if os.environ.get('PYVC_DUMP') and status != 'discharged':
            with open(os.path.join(os.environ['PYVC_DUMP'],
                                   hashlib.md5(full.encode()).hexdigest()[:8] + '.smt2'), 'w') as f:
                s = z3.Solver()
                s.add(*self.facts)
                s.add(goal)
                f.write('; ' + full + '\n' + s.to_smt2())
        self.report.obligations.append(Obligation(full, status, time.time() - t0, backend, model, self.where))

    def _model(self, m):
        out = {}
        for label, term in self.named.items():
            try:
                v = m.eval(term, model_completion=True)
                if z3.is_int_value(v):
                    out[label] = v.as_long()
                elif z3.is_string_value(v):
                    out[label] = v.as_string()
                else:
                    out[label] = str(v)[:200]
            except Exception:  # pylint: disable=broad-except
                pass
        return out

    def watch(self, label, x):
        """Report x's value in countermodels."""
        if isinstance(x, (SInt, SBool, SStr)):
            self.named[label] = x.z
        elif isinstance(x, SBytes):
            self.named[label + '.len'] = x.length
        elif isinstance(x, SList):
            self.named[label + '.len'] = x.length
            if x.items is None:
                for i in range(4):
                    e = x.elem(i)
                    if isinstance(e, SInt):
                        self.named[f'{label}[{i}]'] = e.z
        elif z3.is_expr(x):
            self.named[label] = x
        return x

    def lemma(self, name, hyps, concl, ctx=True):
        """A closed lemma proved on its own, then usable."""
        self.prove(z3.Implies(z3.And(*hyps) if hyps else z3.BoolVal(True), concl), 'lemma ' + name)

    def induction(self, name, n, P, patterns):
        """P(0) and P(i) -> P(i+1) below n are obligations; then P holds on 0..n."""
        self.prove(P(z3.IntVal(0)), f'lemma {name}: base case')
        i = self.skolem('i_ind')
        if not self.in_replay():
            self._discharge(z3.Implies(z3.And(i >= 0, i < n, P(i)), P(i + 1)),
                            f'{self.report.name}: lemma {name}: induction step')
        b = z3.Int('i_all')
        self.assume(z3.ForAll([b], z3.Implies(z3.And(b >= 0, b <= n), P(b)), patterns=patterns(b)))

    def log_write(self, target, field=None):
        self.writes.append((target, field))


def cvc5_check(facts, ms):
    try:
        import cvc5

        s = z3.Solver()
        s.add(*facts)
        text = s.to_smt2()
        solver = cvc5.Solver()
        solver.setOption('tlimit-per', str(ms))
        solver.setOption('strings-exp', 'true')
        parser = cvc5.InputParser(solver)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + text.replace('(check-sat)', ''), 'x')
        sm = parser.getSymbolManager()
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            cmd.invoke(solver, sm)
        r = solver.checkSat()
        return 'unsat' if r.isUnsat() else 'sat' if r.isSat() else 'unknown'
    except Exception:  # pylint: disable=broad-except
        return 'error'


def explore(name, run, **opts):
    """Run `run(vc)` over every path; returns a Report."""
    report = Report(name)
    t0 = time.time()
    stack = [[]]
    max_paths = opts.get('max_paths', 3000)
    max_s = opts.get('max_s', 600)
    while stack:
        prefix = stack.pop()
        if sum(o.status != 'discharged' for o in report.obligations) > 12:
            break
        if report.paths >= max_paths or time.time() - t0 > max_s:
            report.bounded.append(f'path budget exhausted after {report.paths} paths')
            break
        report.paths += 1
        vc = VC(report, prefix, opts)
        try:
            run(vc)
            # vacuity guard: the path must be satisfiable to count as reached
            if report.reached < 4:
                vc.solver.set('timeout', 2000)
                if vc.solver.check() != z3.unsat:
                    report.reached += 1
            else:
                report.reached += 1
        except PathEnd:
            pass
        except Unsupported as e:
            report.unsupported = f'{e} [{vc.where}]'
            break
        except RecursionError as e:
            report.unsupported = f'recursion: {e} [{vc.where}]'
            break
        except PyRaise as e:
            report.error = f'unhandled exception escaped the harness: {e.cls.__name__} {e.exc_args} [{e.where}]'
            break
        except z3.Z3Exception as e:
            report.unsupported = f'z3: {e} [{vc.where}]'
            break
        except (AttributeError, TypeError, KeyError, ValueError, IndexError, AssertionError) as e:
            import traceback

            tb = traceback.format_exc().splitlines()
            report.unsupported = f'engine: {type(e).__name__}: {e} [{vc.where}] ' + ' | '.join(x.strip() for x in tb[-7:-1])
            break
        stack.extend(vc.pending)
    report.wall = time.time() - t0
    return report
