"""Contracts for utils.LRUCache: bounded, consistent and least recently used, after any history."""
import itertools

import z3

from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp
from pyvc.values import Obj, SDict, SInt, SList, SVal, Val, zb, zi
from ratarmountcore import utils as M

C = M.LRUCache


class State:
    """The abstract state: which keys, their values, the order of use, and ghost times of last use."""

    def __init__(self, vc):
        self.vc = vc
        self.cap = vc.watch('size', vc.nat('cap'))
        self.has = vc.func('has', Val, z3.BoolSort())
        self.get = vc.func('get', Val, Val)
        self.T = vc.func('T', Val, z3.IntSort())
        self.idx = vc.func('idx', Val, z3.IntSort())
        self.lu = vc.func('lu', z3.IntSort(), Val)
        self.n = vc.nat('n').z
        self.now = vc.int('now').z
        vc.watch('entries', self.n)
        i, j = z3.Ints('i j')
        k = z3.Const('k', Val)
        has, lu, n = self.has, self.lu, self.n
        vc.assume(n <= self.cap.z)
        vc.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), self.T(lu(i)) < self.T(lu(j))),
                            patterns=[z3.MultiPattern(lu(i), lu(j))]))
        vc.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(has(lu(i)), self.T(lu(i)) < self.now, self.idx(lu(i)) == i)),
                            patterns=[lu(i)]))
        vc.assume(z3.ForAll([k], z3.Implies(has(k), z3.And(self.idx(k) >= 0, self.idx(k) < n, lu(self.idx(k)) == k)), patterns=[has(k), self.idx(k)]))
        self.data = vc.new(SDict(lambda x: x.z, lambda x: has(x), lambda x: SVal(self.get(x)), SInt(n), 'data'))
        self.used = vc.new(SList(n, lambda t: SVal(lu(t)), True, 'lastUsed'))
        self.obj = vc.new(Obj(C, {'size': self.cap, 'lastUsed': self.used, 'data': self.data}, 'self'))

    def fields(self):
        return self.obj.fields['data'], self.obj.fields['lastUsed']

    def invariant(self, T, what):
        vc = self.vc
        data, used = self.fields()
        n = used.length
        i, j = vc.skolem('i'), vc.skolem('j')
        vc.prove(zi(data.size) == n if data.items is None else n == len(data.items), f'{what}: as many recency entries as values')
        vc.prove(n <= self.cap.z, f'{what}: not more entries than the configured size')
        if used.items is not None and not used.items:
            return
        vc.prove(z3.Implies(z3.And(i >= 0, i < j, j < n), T(used.elem(i).z) < T(used.elem(j).z)), f'{what}: recency order')
        vc.prove(z3.Implies(z3.And(i >= 0, i < n), data.has(used.elem(i).z)), f'{what}: every recency entry has a value')
        x = z3.Const(vc.name('x'), Val)
        cands = [self.idx(x), self.idx(x) - 1, self.idx(x) - 2, n - 1, self.n - 1, self.n - 2]
        vc.prove(z3.Implies(data.has(x), z3.Or(*[z3.And(c >= 0, c < n, used.elem(c).z == x) for c in cands])),
                 f'{what}: every value has a recency entry')

    def unchanged(self, what):
        vc = self.vc
        data, used = self.fields()
        x, i = z3.Const(vc.name('x'), Val), vc.skolem('i')
        vc.prove(z3.And(used.length == self.n, zi(data.size) == self.n), f'{what}: number of entries unchanged')
        vc.prove(z3.Implies(z3.And(i >= 0, i < self.n), used.elem(i).z == self.lu(i)), f'{what}: order unchanged')
        vc.prove(data.has(x) == self.has(x), f'{what}: keys unchanged')
        vc.prove(z3.Implies(self.has(x), data.get(x).z == self.get(x)), f'{what}: values unchanged')

    def used_now(self, key):
        return lambda k: z3.If(k == key, self.now, self.T(k))

    def stored(self, key, value, what):
        """after storing value under key"""
        vc = self.vc
        data, _used = self.fields()
        T = self.used_now(key)
        self.invariant(T, what)
        x, y = z3.Const(vc.name('x'), Val), z3.Const(vc.name('y'), Val)
        vc.prove(z3.Implies(data.has(x), z3.Or(x == key, self.has(x))), f'{what}: no other key appears')
        vc.prove(z3.Implies(self.cap.z > 0, z3.And(data.has(key), data.get(key).z == value)), f'{what}: the value is stored')
        vc.prove(z3.Implies(z3.And(data.has(x), x != key), data.get(x).z == self.get(x)), f'{what}: other values are kept')
        vc.prove(z3.Implies(z3.And(self.has(x), z3.Not(data.has(x)), data.has(y)), T(x) < T(y)),
                 f'{what}: only the least recently used entry is evicted')
        vc.prove(z3.Implies(z3.And(self.has(x), z3.Not(data.has(x)), self.cap.z > 0), z3.And(self.n == self.cap.z, z3.Not(self.has(key)))),
                 f'{what}: nothing is evicted before the cache is full')

    def read(self, key, what):
        vc = self.vc
        data, used = self.fields()
        self.invariant(self.used_now(key), what)
        x = z3.Const(vc.name('x'), Val)
        vc.prove(z3.And(used.length == self.n, data.has(x) == self.has(x)), f'{what}: keys unchanged')
        vc.prove(z3.Implies(self.has(x), data.get(x).z == self.get(x)), f'{what}: values unchanged')


def unit(name, method, nargs, post):
    def run(vc):
        s = State(vc)
        args = [vc.val(f'arg{i}') for i in range(nargs)]
        kind, r = attempt(lambda: Interp(vc).run_function(method, [s.obj, *args]))
        post(vc, s, kind, r, *[a.z for a in args])

    return Unit('LRUCache.' + name, run, [method] + ([C._refresh] if hasattr(C, '_refresh') else []))


def post_getitem(vc, s, kind, r, k):
    if kind == 'exc':
        vc.prove(z3.And(z3.BoolVal(r.cls is KeyError), z3.Not(s.has(k))), 'only a missing key raises, and it raises KeyError')
        s.unchanged('failed look-up')
        return
    vc.prove(z3.And(s.has(k), r.z == s.get(k)), 'the value stored last is returned')
    s.read(k, 'look-up')


def post_get(vc, s, kind, r, k, d):
    if kind == 'exc':
        vc.prove(False, f'get raises nothing (got {r.cls.__name__})')
        return
    vc.prove(r.z == z3.If(s.has(k), s.get(k), d), 'get returns the value stored last or the default')
    if vc.branch(s.has(k)):
        s.read(k, 'get')
    else:
        s.unchanged('failed get')


def post_setitem(vc, s, kind, r, k, v):
    if kind == 'exc':
        vc.prove(False, f'storing raises nothing (got {r.cls.__name__})')
        return
    s.stored(k, v, 'store')


def post_setdefault(vc, s, kind, r, k, v):
    if kind == 'exc':
        vc.prove(False, f'setdefault raises nothing (got {r.cls.__name__})')
        return
    vc.prove(r.z == z3.If(s.has(k), s.get(k), v), 'setdefault returns the stored value or the default')
    if vc.branch(s.has(k)):
        s.read(k, 'setdefault')
    else:
        s.stored(k, v, 'setdefault')


def post_delitem(vc, s, kind, r, k):
    if kind == 'exc':
        vc.prove(z3.And(z3.BoolVal(r.cls is KeyError), z3.Not(s.has(k))), 'only a missing key raises, and it raises KeyError')
        s.unchanged('failed deletion')
        return
    data, used = s.fields()
    s.invariant(s.T, 'deletion')
    x = z3.Const(vc.name('x'), Val)
    vc.prove(data.has(x) == z3.And(s.has(x), x != k), 'exactly the key is deleted')
    vc.prove(z3.Implies(data.has(x), data.get(x).z == s.get(x)), 'other values are kept')


def post_contains(vc, s, kind, r, k):
    vc.prove(kind == 'ok' and zb(r) == s.has(k), 'membership')
    s.unchanged('membership')


def post_len(vc, s, kind, r):
    vc.prove(zi(r) == s.n, 'length')
    s.unchanged('length')


def post_bool(vc, s, kind, r):
    vc.prove(zb(r) == (s.n > 0), 'truth value')
    s.unchanged('truth value')


def post_clear(vc, s, kind, r):
    data, used = s.fields()
    vc.prove(z3.And(used.length == 0, z3.BoolVal(data.items == [])), 'nothing is left')


def unit_init(vc):
    cap = vc.nat('cap')
    o = vc.new(Obj(C, {}, 'self'))
    Interp(vc).run_function(C.__init__, [o, cap])
    data, used = o.fields['data'], o.fields['lastUsed']
    vc.prove(z3.And(zi(o.fields['size']) == cap.z, z3.BoolVal(data.items == [] and used.items == [])), 'a new cache is empty and has the configured size')


UNITS = [
    Unit('LRUCache.__init__', unit_init, [C.__init__]),
    unit('__getitem__', C.__getitem__, 1, post_getitem), unit('get', C.get, 2, post_get),
    unit('__setitem__', C.__setitem__, 2, post_setitem), unit('setdefault', C.setdefault, 2, post_setdefault),
    unit('__delitem__', C.__delitem__, 1, post_delitem), unit('__contains__', C.__contains__, 1, post_contains),
    unit('__len__', C.__len__, 0, post_len), unit('__bool__', C.__bool__, 0, post_bool), unit('clear', C.clear, 0, post_clear),
]

# ---- concrete runs ------------------------------------------------------------------------------------------------


def run_op(cache, ref, cap, op):
    """-> (got, want, evicted ok); ref: list of (key, value) from least to most recently used"""
    name, k, v = op
    d = dict(ref)

    def use(key):
        e = next(x for x in ref if x[0] == key)
        ref.remove(e)
        ref.append(e)

    def store(key, value):
        ref[:] = [e for e in ref if e[0] != key] + [(key, value)]
        while len(ref) > cap:
            ref.pop(0)

    if name == 'set':
        cache[k] = v
        store(k, v)
        return None, None
    if name == 'getitem':
        try:
            got = cache[k]
        except KeyError:
            got = 'KeyError'
        if k in d:
            use(k)
        return got, d.get(k, 'KeyError')
    if name == 'get':
        got = cache.get(k, 'default')
        if k in d:
            use(k)
        return got, d.get(k, 'default')
    if name == 'setdefault':
        got = cache.setdefault(k, v)
        if k in d:
            use(k)
        else:
            store(k, v)
        return got, d.get(k, v)
    if name == 'del':
        try:
            del cache[k]
            got = 'deleted'
        except KeyError:
            got = 'KeyError'
        ref[:] = [e for e in ref if e[0] != k]
        return got, 'deleted' if k in d else 'KeyError'
    if name == 'in':
        return k in cache, k in d
    if name == 'clear':
        cache.clear()
        ref.clear()
        return None, None
    return None, None


def run_cache(ctx):
    def history(cap, ops):
        with ctx.case({'size': cap, 'operations': ops}) as c:
            cache, ref = C(cap), []
            for n, op in enumerate(ops):
                got, want = run_op(cache, ref, cap, op)
                c.check(got == want, f'{op[0]} returned a wrong value (operation {n})', expected=want, got=got, history=ops[:n + 1])
                c.check(len(cache) <= cap, f'more entries than the configured size after operation {n}', entries=len(cache))
                c.check(len(cache) == len(ref) and set(cache.keys()) == {k for k, _ in ref},
                        f'wrong keys after operation {n}', expected=[k for k, _ in ref], got=list(cache.keys()), history=ops[:n + 1])
                c.check(sorted(cache.values()) == sorted(v for _k, v in ref), f'wrong values after operation {n}')
                c.check(bool(cache) == bool(ref), 'truth value')

    kinds = ['set', 'getitem', 'get', 'setdefault', 'del', 'in']
    for cap in (0, 1, 2):
        keys = (1, 2, 3)
        alphabet = [(k, x, None) for k in ('getitem', 'get', 'del') for x in keys]
        alphabet += [(k, x, 0) for k in ('set', 'setdefault') for x in keys]
        for length in (1, 2, 3) if not ctx.thorough else (1, 2, 3, 4):
            for seq in itertools.product(alphabet, repeat=length):
                if ctx.out_of_time():
                    return
                history(cap, [(a, b, None if v is None else 10 * n + b) for n, (a, b, v) in enumerate(seq)])
    rng = ctx.rng
    for number in range(ctx.budget(2000, 20000)):
        if ctx.out_of_time():
            return
        cap = rng.choice((0, 1, 2, 3, 5, 10))
        nkeys = cap + rng.choice((1, 2, 5))
        history(cap, [(rng.choice(kinds) if rng.random() < 0.97 else 'clear', rng.randrange(nkeys), number * 1000 + i)
                      for i in range(rng.choice((5, 20, 60)))])


ORACLES = [Oracle('cache histories', run_cache, ['LRUCache'],
                  'all histories of up to 3 (thorough: 4) operations on 3 keys with sizes 0 to 2; random histories of up to 60 operations, sizes up to 10',
                  quick_s=20, thorough_s=150)]
LEVEL = 'proof'
TRUSTED = ['Python lists and dictionaries as modelled by pyvc (ordered sequence, map with size)']
ASSUMPTIONS = ['the configured size is not negative', 'keys are hashable with a consistent equality', 'one thread uses a cache at a time']
