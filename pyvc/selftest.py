"""setup_cmd: checks that the tools are there and that the verification-condition generator agrees with CPython.

Every function of selfcases.py is run by CPython and by the verifier, once on the plain arguments and once on symbolic ones that are
assumed to equal them; what the verifier computes must provably be what CPython returned (or raised).  In addition, a wrong result must
not be provable."""
import multiprocessing
import os
import sys
import time

import pyvc  # noqa: F401
import z3

from pyvc import interp as interpreter
from pyvc import ops, selfcases
from pyvc.harness import attempt
from pyvc.interp import Interp
from pyvc.values import SBytes, SDict, SList, SSet, SStr, Sym, Unsupported, from_native, zb, zi
from pyvc.vc import explore


def symbolic(vc, x):
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, int):
        v = vc.int('n')
        vc.assume(v.z == x)
        return v
    if isinstance(x, str):
        v = vc.str('s')
        vc.assume(v.z == z3.StringVal(x))
        return v
    if isinstance(x, bytes):
        f, n = vc.func('byte', z3.IntSort(), z3.IntSort()), vc.nat('length').z
        vc.assume(z3.And(n == len(x), *[f(k) == b for k, b in enumerate(x)]))
        return SBytes(n, lambda k: f(k))
    if isinstance(x, list):
        f, n = vc.func('elem', z3.IntSort(), z3.IntSort()), vc.nat('length').z
        vc.assume(z3.And(n == len(x), *[f(k) == b for k, b in enumerate(x)]))
        return vc.new(SList(n, lambda k: ops.SInt(f(k)), True, 'xs'))
    raise Unsupported(repr(x))


def same(vc, got, want):
    """formula: the verifier's value is the given one"""
    if isinstance(want, (list, tuple)):
        if isinstance(got, (list, tuple)):
            got = SList(items=list(got), mutable=isinstance(got, list))
        if not isinstance(got, SList):
            return z3.BoolVal(False)
        if got.items is not None:
            return z3.And(len(got.items) == len(want), *[same(vc, g, w) for g, w in zip(got.items, want)])
        return z3.And(got.length == len(want), *[same(vc, got.elem(k), w) for k, w in enumerate(want)])
    if isinstance(want, bytes):
        if not isinstance(got, (bytes, SBytes)):
            return z3.BoolVal(False)
        got = ops.sbytes_of(got)
        return z3.And(got.length == len(want), *[got.at(z3.IntVal(k)) == b for k, b in enumerate(want)])
    if isinstance(want, bool) or want is None or not isinstance(got, Sym):
        if isinstance(got, (Sym, SBytes, SList, SDict, SSet)) and not isinstance(got, ops.SBool):
            return z3.BoolVal(False)
        if isinstance(got, ops.SBool):
            return got.z == z3.BoolVal(want) if isinstance(want, bool) else z3.BoolVal(False)
        return z3.BoolVal(type(got) is type(want) and got == want)
    if isinstance(want, int):
        return zi(got) == want if isinstance(got, ops.SInt) else z3.BoolVal(False)
    if isinstance(want, str):
        return got.z == z3.StringVal(want) if isinstance(got, SStr) else z3.BoolVal(False)
    raise Unsupported(repr(want))


def plain(x):
    return list(x) if isinstance(x, list) else x


def one(job):
    index, k, kind = job
    f, inputs = selfcases.CASES[index]
    args = inputs[k]
    try:
        want, error = f(*[plain(x) for x in args]), None
    except Exception as e:  # pylint: disable=broad-except
        want, error = None, type(e)

    def run(vc):
        a = [from_native(plain(x)) if kind == 'plain' else symbolic(vc, x) for x in args]
        how, r = attempt(lambda: Interp(vc).run_function(f, a))
        if error is not None or how == 'exc':
            vc.prove(how == 'exc' and r.cls is error, f'raises {error and error.__name__}' + (f' (got {r.cls.__name__})' if how == 'exc' else ''))
            return
        vc.prove(same(vc, r, want), f'returns {want!r}')

    rep = explore(f'{f.__name__}{args} {kind}', run)
    if rep.status == 'proved' and error is None and kind == 'symbolic':  # it was not proved from contradictory assumptions
        def refuted(vc):
            a = [symbolic(vc, x) for x in args]
            how, r = attempt(lambda: Interp(vc).run_function(f, a))
            vc.prove(z3.Not(same(vc, r, want)), 'the opposite')

        opposite = explore('opposite', refuted, cvc5=False, z3_ms=1000, timeout_ms=1000)
        if opposite.status == 'proved' or not opposite.obligations:
            return f.__name__, args, kind, 'failed', 'the opposite is provable, too'
    why = rep.unsupported or rep.error or '; '.join(o.name for o in rep.obligations if o.status != 'discharged')
    return f.__name__, args, kind, rep.status if rep.obligations or rep.status != 'proved' else 'no obligation', str(why)


def wrong():
    """what is wrong is not provable"""
    for name, claim in (('x > 0', lambda vc: vc.int('x').z > 0), ('a function is injective', lambda vc: vc.func('f', z3.IntSort(), z3.IntSort())(1) != vc.int('y').z)):
        r = explore('must fail', lambda vc, claim=claim: vc.prove(claim(vc), 'claim'))
        assert r.status == 'failed', (name, r.status)


def main():
    s = z3.Solver()
    x = z3.Int('x')
    s.add(x > x)
    assert s.check() == z3.unsat
    wrong()
    t0 = time.time()
    interpreter.REPO = os.path.dirname(os.path.abspath(__file__))  # the functions of selfcases.py are interpreted
    jobs = [(i, k, kind) for i, (_f, inputs) in enumerate(selfcases.CASES) for k in range(len(inputs)) for kind in ('plain', 'symbolic')]
    with multiprocessing.get_context('fork').Pool(8) as pool:
        results = pool.map(one, jobs, chunksize=8)
    bad = [r for r in results if r[3] == 'failed' or r[3] == 'no obligation']
    undecided = [r for r in results if r[3] not in ('proved', 'failed', 'no obligation')]
    for r in bad:
        print('DISAGREES', r)
    if '-v' in sys.argv:
        for r in undecided:
            print('undecided', r)
    print(f'{len(results)} runs of {len(selfcases.CASES)} functions agree with CPython but for {len(bad)}; {len(undecided)} outside of the subset; '
          f'z3 {z3.get_version_string()}; {time.time() - t0:.1f} s')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
