"""Contracts for StenciledFile.py (views over byte ranges of files)."""
import io

import z3

from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp, LoopSpec
from pyvc.ops import File, Lock
from pyvc.values import *  # noqa: F403
from pyvc.values import Host, Model, Obj, PyRaise, SBytes, SInt, SList, Unsupported, zi
from ratarmountcore import StenciledFile as M


class StencilFiles:
    """The files of the stencils: file i has identity fid(i); contents data(fid, pos); short reads allowed."""

    def __init__(self, vc, lock):
        self.vc, self.lock = vc, lock
        self.fid = vc.func('fid', z3.IntSort(), z3.IntSort())
        self.data = vc.func('data', z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.fsize = vc.func('fsize', z3.IntSort(), z3.IntSort())
        self.pos = z3.Array('pos', z3.IntSort(), z3.IntSort())
        self.serial = None
        if lock is not None:
            lock.interference.append(self.havoc)

    def havoc(self):
        self.pos = z3.Array(self.vc.name('pos'), z3.IntSort(), z3.IntSort())

    def interfere(self):
        if self.lock is not None and not self.lock.held:
            self.havoc()


class StencilFile(Model):
    pytype = io.BufferedReader

    def __init__(self, files, i):
        self.f, self.i, self.closed_ = files, i, False

    def map_terms(self, f):
        return StencilFile(self.f, f(self.i))

    def a_closed(self, vc):
        return self.closed_

    def m_close(self, vc):
        self.closed_ = True

    def m_readable(self, vc):
        return True

    def m_seekable(self, vc):
        return True

    def m_seek(self, vc, offset, whence=0):
        self.f.interfere()
        if whence != 0:
            raise Unsupported('whence')
        if vc.branch(zi(offset) < 0):
            raise PyRaise(ValueError, ('negative seek',))
        self.f.pos = z3.Store(self.f.pos, self.f.fid(self.i), zi(offset))
        vc.log_write(self.f, 'pos')
        return offset

    def m_read(self, vc, n=-1):
        f = self.f
        f.interfere()
        fid = f.fid(self.i)
        p = z3.Select(f.pos, fid)
        avail = z3.If(f.fsize(fid) > p, f.fsize(fid) - p, 0)
        want = zi(n)
        ln = z3.If(want < 0, avail, z3.If(want < avail, want, avail))
        got = vc.int('got').z
        vc.assume(z3.And(got >= 0, got <= ln, z3.Implies(ln > 0, got >= 1)))
        f.pos = z3.Store(f.pos, fid, p + got)
        vc.log_write(f, 'pos')
        return SBytes(got, lambda k: f.data(fid, p + k))


def stenciled(vc, locked):
    """A RawStenciledFile satisfying its class invariant, plus the ghost function J (the concatenation)."""
    lock = Lock('fileObjectLock') if locked else None
    files = StencilFiles(vc, lock)
    n = vc.nat('n').z
    off = vc.list_int('off', length=n)
    siz = vc.list_int('siz', length=n)
    cum = vc.list_int('cum', length=n + 1)
    i, j, o = z3.Ints('i j o')
    vc.assume(cum.fn(0) == 0)
    vc.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(
        siz.fn(i) > 0, off.fn(i) >= 0, cum.fn(i + 1) == cum.fn(i) + siz.fn(i),
        off.fn(i) + siz.fn(i) <= files.fsize(files.fid(i)))), patterns=[siz.fn(i), off.fn(i), cum.fn(i)]))
    vc.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j <= n), cum.fn(i) <= cum.fn(j)),
                        patterns=[z3.MultiPattern(cum.fn(i), cum.fn(j))]))
    J = vc.func('J', z3.IntSort(), z3.IntSort())
    vc.assume(z3.ForAll([i, o], z3.Implies(
        z3.And(i >= 0, i < n, cum.fn(i) <= o, o < cum.fn(i) + siz.fn(i)),
        J(o) == files.data(files.fid(i), off.fn(i) + o - cum.fn(i))), patterns=[z3.MultiPattern(cum.fn(i), J(o))]))
    offset = vc.nat('offset')
    self = vc.new(Obj(M.RawStenciledFile, {
        'offset': offset, 'fileObjectLock': lock, 'offsets': off, 'sizes': siz, 'cumsizes': cum,
        'fileObjects': SList(n, lambda t: StencilFile(files, t), True, 'fileObjects'),
    }, 'self'))
    for name, v in (('offset', offset), ('sizes', siz), ('cumsizes', cum), ('offsets', off)):
        vc.watch(name, v)
    return self, files, J, cum.fn(n)


READ_LOOP = {
    ('ratarmountcore.StenciledFile:RawStenciledFile.read', 0): LoopSpec(
        inv=lambda vc, L: read_inv(vc, L),
        heap=lambda vc, L: [(L.self, 'offset', None), (vc.ghost['files'], 'pos', lambda vc: vc.ghost['files'].havoc())],
        decreases=lambda vc, L: zi(L.size) - L.result.length if isinstance(L.result, SBytes) else zi(L.size) - len(L.result),
    )
}


def blen(b):
    return b.length if isinstance(b, SBytes) else z3.IntVal(len(b))


def read_inv(vc, L):
    from pyvc.values import sbytes_of

    r = sbytes_of(L.result)
    o0, J, total = vc.ghost['offset0'], vc.ghost['J'], vc.ghost['total']
    k = z3.Int(vc.name('k_inv'))
    return [
        ('offset advanced by len(result)', zi(L.self.fields['offset']) == o0 + r.length),
        ('result not longer than requested', z3.Or(r.length <= zi(L.size), r.length == 0)),
        ('result inside the file', z3.Implies(r.length > 0, o0 + r.length <= total)),
        ('result is the concatenation', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < r.length), r.at(k) == J(o0 + k)),
                                                  patterns=[J(o0 + k)])),
    ]


def unit_read(locked, all_):
    def run(vc):
        self, files, J, total = stenciled(vc, locked)
        size = -1 if all_ else vc.nat('size')
        o0 = self.fields['offset'].z
        vc.ghost.update(files=files, J=J, total=total, offset0=o0)
        vc.watch('size', size)
        interp = Interp(vc, loops=READ_LOOP)
        kind, r = attempt(lambda: interp.run_function(M.RawStenciledFile.read, [self, size]))
        if kind == 'exc':
            vc.prove(False, f'read raises nothing (got {r.cls.__name__} at {r.where})')
            return
        from pyvc.values import sbytes_of

        b = sbytes_of(r)
        rest = z3.If(total > o0, total - o0, 0)
        want = rest if all_ else z3.If(zi(size) < rest, zi(size), rest)
        vc.prove(b.length == want, 'read returns exactly the requested number of available bytes')
        k = vc.skolem()
        vc.prove(z3.Implies(z3.And(k >= 0, k < b.length), b.at(k) == J(o0 + k)), 'read returns the concatenation of the cut-outs')
        vc.prove(zi(self.fields['offset']) == o0 + b.length, 'read advances the position by the bytes returned')

    return run



# ---- seek, tell -----------------------------------------------------------------------------------------------------


def seek_target(offset0, total, offset, whence):
    return {0: zi(offset), 1: offset0 + zi(offset), 2: total + zi(offset)}[whence]


def unit_seek(cls, whence, make, clamps=False):
    """make(vc) -> (self, total).  A rejected seek raises ValueError and leaves the position; tell agrees."""

    def run(vc):
        self, total = make(vc)
        field = 'offset' if 'offset' in self.fields else '_offset'
        o0 = zi(self.fields[field])
        offset = vc.watch('offset', vc.int('seek_offset'))
        interp = Interp(vc)
        kind, r = attempt(lambda: interp.run_function(cls.seek, [self, offset, whence]))
        target = seek_target(o0, total, offset, whence)
        now = zi(self.fields[field])
        if kind == 'exc':
            vc.prove(z3.BoolVal(r.cls is ValueError and not clamps), f'seek raises nothing but ValueError (got {r.cls.__name__})')
            vc.prove(target < 0, 'seek is rejected only before the start')
            vc.prove(now == o0, 'a rejected seek leaves the position unchanged')
            return
        want = z3.If(target < 0, 0, target) if clamps else target
        vc.prove(now == want, 'seek moves to the requested position')
        vc.prove(now >= 0, 'seek accepts no negative position')
        vc.prove(zi(r) == now, 'seek returns the new position')
        t = interp.run_function(cls.tell, [self])
        vc.prove(zi(t) == now, 'tell agrees with seek')

    return Unit(f'{cls.__name__}.seek[whence={whence}]', run, [cls.seek, cls.tell])


def make_stenciled(vc):
    self, files, J, total = stenciled(vc, False)
    return self, total


# ---- construction -------------------------------------------------------------------------------------------------


def unit_init(vc):
    """RawStenciledFile(fileStencils) establishes the class invariant over exactly the non-empty cut-outs."""
    n = vc.nat('n').z
    fid = vc.func('fid', z3.IntSort(), z3.IntSort())
    off = vc.list_int('off', length=n)
    siz = vc.list_int('siz', length=n)
    i, j = z3.Ints('i j')
    vc.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(siz.fn(i) >= 0, off.fn(i) >= 0)),
                        patterns=[siz.fn(i), off.fn(i)]))
    files = StencilFiles(vc, None)
    stencils = SList(n, lambda t: (StencilFile(files, t), SInt(off.fn(t)), SInt(siz.fn(t))), True, 'stencils')
    vc.watch('n', n)
    vc.watch('siz', siz)
    self = vc.new(Obj(M.RawStenciledFile, {}, 'self'))
    q = 'ratarmountcore.StenciledFile:RawStenciledFile.__init__'

    def trivial(vc, L):
        return []

    def cum_inv(vc, L):
        c = L.self.fields['cumsizes']
        k = zi(L.k)
        z = z3.Int(vc.name('z'))
        sizes = L.self.fields['sizes']
        if sizes.items is not None and not sizes.items:
            return [('one prefix sum', c.length == 1), ('sums start at 0', zi(c.elem(z3.IntVal(0))) == 0)]
        return [
            ('one prefix sum per cut-out', c.length == k + 1),
            ('sums start at 0', zi(c.elem(z3.IntVal(0))) == 0),
            ('prefix sums', z3.ForAll([z], z3.Implies(z3.And(z >= 0, z < k),
                                                      zi(c.elem(z + 1)) == zi(c.elem(z)) + zi(sizes.elem(z))))),
        ]

    def new_cums(vc):
        f = vc.func('cumsizes', z3.IntSort(), z3.IntSort())
        r = vc.new(SList(vc.nat('cumlen').z, lambda t: SInt(f(t)), True, 'cumsizes'))
        r.fn = f
        return r

    def heap(vc, L):
        lst = L.self.fields['cumsizes']
        new = new_cums(vc)
        lst.assign(new)
        lst.fn = new.fn
        return [(lst, None, False)]

    loops = {(q, 0): LoopSpec(trivial), (q, 1): LoopSpec(trivial), (q, 2): LoopSpec(trivial),
             (q, 3): LoopSpec(cum_inv, heap=heap)}
    interp = Interp(vc, loops=loops)
    kind, r = attempt(lambda: interp.run_function(M.RawStenciledFile.__init__, [self, stencils]))
    if kind == 'exc':
        vc.prove(False, f'construction raises nothing (got {r.cls.__name__} at {r.where})')
        return
    f = self.fields
    offs, sizes, cums, objs = f['offsets'], f['sizes'], f['cumsizes'], f['fileObjects']
    vc.prove(zi(f['offset']) == 0, 'the position starts at 0')
    m = sizes.length
    vc.prove(z3.And(offs.length == m, objs.length == m, cums.length == m + 1), 'one entry per kept cut-out')
    if sizes.items is not None:
        vc.prove(z3.And(n == 0, m == 0), 'nothing is kept of nothing')
        vc.prove(zi(cums.elem(z3.IntVal(0))) == 0, 'sums start at 0')
        return
    k = vc.skolem('kept')
    vc.prove(z3.Implies(z3.And(k >= 0, k < m), zi(sizes.elem(k)) > 0), 'kept cut-outs are not empty')
    vc.prove(z3.Implies(z3.And(k >= 0, k < m), zi(cums.elem(k + 1)) == zi(cums.elem(k)) + zi(sizes.elem(k))), 'prefix sums of the sizes')
    vc.prove(zi(cums.elem(z3.IntVal(0))) == 0, 'sums start at 0')
    # kept[t] = position of the t-th kept cut-out in the given list, taken from the file objects themselves
    def kept(t):
        return objs.elem(t).i
    vc.prove(z3.Implies(z3.And(k >= 0, k < m), z3.And(
        kept(k) >= 0, kept(k) < n, zi(sizes.elem(k)) == siz.fn(kept(k)), zi(offs.elem(k)) == off.fn(kept(k)))),
        'file, offset and size of a kept cut-out belong together')
    k2 = vc.skolem('kept2')
    vc.prove(z3.Implies(z3.And(k >= 0, k < k2, k2 < m), kept(k) < kept(k2)), 'the order of the cut-outs is kept')
    g = vc.func('rank', z3.IntSort(), z3.IntSort())  # ghost: number of kept cut-outs among the first i
    C = vc.func('C', z3.IntSort(), z3.IntSort())  # ghost: prefix sums of all cut-outs, the empty ones included
    vc.assume(z3.And(g(0) == 0, C(0) == 0))
    vc.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(
        C(i + 1) == C(i) + siz.fn(i), g(i + 1) == g(i) + z3.If(siz.fn(i) > 0, 1, 0))), patterns=[siz.fn(i)]))
    sel, inv = getattr(objs_source(interp, self), 'sel', None), getattr(objs_source(interp, self), 'sel_inv', None)
    if sel is None:
        raise Unsupported('kept cut-outs are not selected by a comprehension')

    def P(x):
        return z3.And(g(x) >= 0, g(x) <= m, z3.Implies(g(x) < m, sel(g(x)) >= x), z3.Implies(g(x) > 0, sel(g(x) - 1) < x),
                      zi(cums.elem(g(x))) == C(x), siz.fn(x) == siz.fn(x), inv(x) == inv(x))

    vc.induction('no byte is lost by dropping empty cut-outs', n, P, lambda b: [g(b)])
    vc.prove(z3.And(g(n) == m, zi(cums.elem(m)) == C(n)), 'the size is the sum of all cut-outs')


def objs_source(interp, self):
    from pyvc.values import SList as L

    for v in (interp.last_scope or {}).values():
        if isinstance(v, L) and hasattr(v, 'sel'):
            return v
    return None


# ---- LambdaReaderFile, ZeroFile ---------------------------------------------------------------------------------------


def make_lambda(vc):
    data = vc.func('data', z3.IntSort(), z3.IntSort())
    size = vc.nat('file_size')
    short = vc.bool('short')

    def raw(vc, offset, n):
        vc.prove(z3.And(zi(offset) >= 0, zi(n) >= 0), 'the read function is asked for a valid range')
        vc.prove(z3.Or(zi(n) == 0, zi(offset) + zi(n) <= size.z), 'the read function is asked for nothing behind the end')
        got = vc.int('got').z
        vc.assume(z3.And(got >= 0, got <= zi(n), z3.Implies(zi(n) > 0, got > 0)))
        o = zi(offset)
        return SBytes(got, lambda k: data(o + k))

    self = vc.new(Obj(M.LambdaReaderFile, {'offset': vc.nat('offset'), 'size': size, 'rawRead': Host(raw, 'rawRead')}, 'self'))
    vc.watch('size', size)
    vc.watch('offset0', self.fields['offset'])
    return self, size.z, data


def unit_lambda_read(vc):
    self, total, data = make_lambda(vc)
    size = vc.watch('n', vc.int('n'))
    o0 = zi(self.fields['offset'])
    interp = Interp(vc)
    kind, r = attempt(lambda: interp.run_function(M.LambdaReaderFile.read, [self, size]))
    if kind == 'exc':
        vc.prove(False, f'read raises nothing (got {r.cls.__name__} at {r.where})')
        return
    from pyvc.values import sbytes_of

    b = sbytes_of(r)
    rest = z3.If(total > o0, total - o0, 0)
    vc.prove(z3.And(b.length <= rest, z3.Implies(zi(size) >= 0, b.length <= zi(size))), 'read returns no more than asked for')
    vc.prove(z3.Implies(z3.And(rest > 0, zi(size) != 0), b.length > 0), 'end of file is reported only at the end')
    k = vc.skolem()
    vc.prove(z3.Implies(z3.And(k >= 0, k < b.length), b.at(k) == data(o0 + k)), 'read returns the bytes at the position')
    vc.prove(zi(self.fields['offset']) == o0 + b.length, 'read advances the position by the bytes returned')


def unit_zero(vc):
    size = vc.nat('size')
    self = vc.new(Obj(M.ZeroFile, {}, 'self'))
    interp = Interp(vc)
    interp.run_function(M.ZeroFile.__init__, [self, size])
    vc.prove(zi(self.fields['size']) == size.z, 'the size is as given')
    vc.prove(zi(self.fields['offset']) == 0, 'the position starts at 0')
    self.fields['offset'] = vc.nat('offset')
    o0 = zi(self.fields['offset'])
    n = vc.int('n')
    r = interp.run_function(M.ZeroFile.read, [self, n])
    from pyvc.values import sbytes_of

    b = sbytes_of(r)
    rest = z3.If(size.z > o0, size.z - o0, 0)
    vc.prove(b.length == z3.If(z3.Or(zi(n) < 0, zi(n) > rest), rest, zi(n)), 'as many zeros as asked for and available')
    k = vc.skolem()
    vc.prove(z3.Implies(z3.And(k >= 0, k < b.length), b.at(k) == 0), 'only zeros')


# ---- RawJoinedFileFromFactory ----------------------------------------------------------------------------------------


def joined(vc, locked):
    lock = Lock('file_lock') if locked else None
    files = StencilFiles(vc, lock)
    n = vc.nat('n').z
    siz = vc.list_int('siz', length=n)
    cum = vc.list_int('cum', length=n + 1)
    i, j, o = z3.Ints('i j o')
    vc.assume(cum.fn(0) == 0)
    vc.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(
        siz.fn(i) > 0, cum.fn(i + 1) == cum.fn(i) + siz.fn(i), siz.fn(i) == files.fsize(files.fid(i)))),
        patterns=[siz.fn(i), cum.fn(i)]))
    vc.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j <= n), cum.fn(i) <= cum.fn(j)),
                        patterns=[z3.MultiPattern(cum.fn(i), cum.fn(j))]))
    J = vc.func('J', z3.IntSort(), z3.IntSort())
    vc.assume(z3.ForAll([i, o], z3.Implies(
        z3.And(i >= 0, i < n, cum.fn(i) <= o, o < cum.fn(i) + siz.fn(i)),
        J(o) == files.data(files.fid(i), o - cum.fn(i))), patterns=[z3.MultiPattern(cum.fn(i), J(o))]))
    opened = None
    if vc.choose('opened'):
        c = vc.int('opened_index').z
        vc.assume(z3.And(c >= 0, c < n))
        opened = (SInt(c), StencilFile(files, c))
    self = vc.new(Obj(M.RawJoinedFileFromFactory, {
        'offset': vc.nat('offset'), 'fileObjectLock': lock, 'sizes': siz, 'cumsizes': cum, 'fileObject': opened,
        '_seekable': True,
        'factories': SList(n, lambda t: Host(lambda vc: StencilFile(files, t), 'factory'), True, 'factories'),
    }, 'self'))
    vc.watch('offset', self.fields['offset'])
    vc.watch('siz', siz)
    return self, files, J, cum.fn(n)


def unit_joined_read(locked, all_):
    def run(vc):
        self, files, J, total = joined(vc, locked)
        size = -1 if all_ else vc.nat('size')
        o0 = zi(self.fields['offset'])
        interp = Interp(vc)
        kind, r = attempt(lambda: interp.run_function(M.RawJoinedFileFromFactory.read, [self, size]))
        if kind == 'exc':
            vc.prove(False, f'read raises nothing (got {r.cls.__name__} at {r.where})')
            return
        from pyvc.values import sbytes_of

        b = sbytes_of(r)
        rest = z3.If(total > o0, total - o0, 0)
        vc.prove(z3.And(b.length <= rest, z3.BoolVal(all_) if all_ else b.length <= zi(size)), 'read returns no more than asked for')
        vc.prove(z3.Implies(z3.And(rest > 0, z3.BoolVal(True) if all_ else zi(size) > 0), b.length > 0), 'end of file is reported only at the end')
        k = vc.skolem()
        vc.prove(z3.Implies(z3.And(k >= 0, k < b.length), b.at(k) == J(o0 + k)), 'read returns the concatenation of the files')
        vc.prove(zi(self.fields['offset']) == o0 + b.length, 'read advances the position by the bytes returned')
        cached = self.fields['fileObject']
        if cached is not None:
            vc.prove(zi(cached[0]) == cached[1].i, 'the opened file is the one of the remembered index')

    return Unit(f'RawJoinedFileFromFactory.read[{"locked" if locked else "unlocked"},{"all" if all_ else "size"}]', run,
                [M.RawJoinedFileFromFactory.read, M.RawJoinedFileFromFactory._get_file_object, M.RawJoinedFileFromFactory._find_stencil])


UNITS = [
    Unit('RawStenciledFile.read[unlocked,size]', unit_read(False, False), [M.RawStenciledFile.read, M.RawStenciledFile._read1_unlocked, M.RawStenciledFile._find_stencil]),
    Unit('RawStenciledFile.read[locked,size]', unit_read(True, False), [M.RawStenciledFile.read]),
    Unit('RawStenciledFile.read[locked,all]', unit_read(True, True), [M.RawStenciledFile.read]),
    *[unit_seek(M.RawStenciledFile, w, make_stenciled) for w in (0, 1, 2)],
    *[unit_seek(M.LambdaReaderFile, w, lambda vc: make_lambda(vc)[:2]) for w in (0, 1, 2)],
    *[unit_seek(M.RawJoinedFileFromFactory, w, lambda vc: joined(vc, False)[::3], True) for w in (0, 1, 2)],
    Unit('RawStenciledFile.__init__', unit_init, [M.RawStenciledFile.__init__]),
    Unit('LambdaReaderFile.read', unit_lambda_read, [M.LambdaReaderFile.read]),
    Unit('ZeroFile', unit_zero, [M.ZeroFile.__init__, M.LambdaReaderFile.__init__, M.LambdaReaderFile.read]),
    unit_joined_read(False, False), unit_joined_read(True, False), unit_joined_read(False, True),
]


# ---- concrete runs ------------------------------------------------------------------------------------------------


def run_views(ctx):
    import itertools

    from checks.common import Content, Pattern, file_ops, run_file_ops

    rng = ctx.rng
    base = bytes(range(65, 91))

    def pieces(files, stencils):
        return Content([files[f][o:o + s] if isinstance(files[f], bytes) else (files[f], o, s) for f, o, s in stencils])

    # small scope: all views of up to three cut-outs over a four-byte file, every position and size
    small = b'abcd'
    cuts = [(o, s) for o in range(4) for s in range(0, 3) if o + s <= 4]
    for n in range(3 if not ctx.thorough else 4):
        for combo in itertools.product(cuts, repeat=n):
            content = b''.join(small[o:o + s] for o, s in combo)
            with ctx.case(('view', combo)) as c:
                fobj = io.BytesIO(small)
                f = M.RawStenciledFile([(fobj, o, s) for o, s in combo])
                for pos in range(len(content) + 2):
                    for size in range(0, len(content) + 2):
                        c.equal(f.seek(pos), pos, 'seek result')
                        got = f.read(size)
                        c.equal(got, content[pos:pos + size], 'read', position=pos, size=size)
                        c.equal(f.tell(), pos + len(got), 'tell')
                c.equal(f.seek(0, 2), len(content), 'size')
                f.seek(0)
                c.equal(f.read(), content, 'read all')
            if ctx.out_of_time():
                return
    makers = ('stencil', 'rawstencil', 'joined', 'factory', 'rawfactory', 'lambda', 'zero', 'stencil_small_buffer')
    for number in range(ctx.budget(5000, 40000)):
        if ctx.out_of_time():
            return
        big = rng.random() < 0.15
        kind = rng.choice(makers)
        nfiles = rng.randint(1, 4)
        sizes = [rng.choice((0, 1, 2, 5, 16, 26)) for _ in range(nfiles)]
        if big:
            sizes = [rng.choice((0, 8191, 8192, 8193, 2 ** 31 + 5, 2 ** 32 + 7, 2 ** 33)) for _ in range(nfiles)]
        salts = [rng.randrange(1000) for _ in range(nfiles)]
        chunk = rng.choice((None, None, 1, 3))
        if kind in ('stencil', 'rawstencil', 'stencil_small_buffer'):
            st = []
            for _ in range(rng.randint(0, 6)):
                f = rng.randrange(nfiles)
                o = rng.randint(0, sizes[f]) if not big else max(0, sizes[f] - rng.choice((0, 1, 8192, 20000)))
                s = rng.randint(0, min(sizes[f] - o, 30000))
                st.append((f, o, s))
        else:
            st = [(f, 0, sizes[f]) for f in range(nfiles)]
            if kind == 'rawfactory' and chunk:
                chunk = 3
        if kind in ('lambda', 'zero'):
            st = st[:1]
        total = sum(s for _, _, s in st)
        bounds, acc = [], 0
        for _, _, s in st:
            acc += s
            bounds.append(acc)
        lock = rng.random() < 0.4
        ops = file_ops(rng, total, bounds, rng.randint(3, 14), big)
        with ctx.case({'kind': kind, 'file sizes': sizes, 'cut-outs': st, 'short reads': chunk, 'lock': lock, 'operations': ops}) as c:
            import threading

            files = [Pattern(n, s, chunk) for n, s in zip(sizes, salts)]
            content = Content([(files[f], o, s) for f, o, s in st])
            lk = threading.Lock() if lock else None
            short, rejects = False, True
            if kind == 'stencil':
                f = M.StenciledFile([(files[a], o, s) for a, o, s in st], lk)
            elif kind == 'stencil_small_buffer':
                f = M.StenciledFile([(files[a], o, s) for a, o, s in st], lk, bufferSize=rng.choice((1, 2, 3, 7)))
            elif kind == 'rawstencil':
                f = M.RawStenciledFile([(files[a], o, s) for a, o, s in st], lk)
            elif kind == 'joined':
                f = M.JoinedFile(files, lk)
            elif kind in ('factory', 'rawfactory'):
                fac = [lambda n=n, s=s: Pattern(n, s, chunk) for n, s in zip(sizes, salts)]
                if kind == 'factory':
                    f = M.JoinedFileFromFactory(fac, lk)
                else:
                    f, short = M.RawJoinedFileFromFactory(fac, lk), True
                rejects = False
            elif kind == 'lambda':
                def raw(o, n, p=files[0]):
                    p.seek(o)
                    return p.read(n)

                c.check(True, '')
                f = M.LambdaReaderFile(raw, sizes[0])
                short = bool(chunk)
            else:
                f = M.ZeroFile(sizes[0])
                content = Content([b'\0' * min(sizes[0], 40000)])
                if sizes[0] > 40000:
                    ops = [('seek', sizes[0] - 5, 0), ('read', 9)]
                    c.equal(f.seek(sizes[0] - 5), sizes[0] - 5, 'seek')
                    c.equal(f.read(9), b'\0' * 5, 'read')
                    continue
            run_file_ops(c, f, content, ops, short, rejects)
            if lk:
                c.check(not lk.locked(), 'the lock is left held')
            if kind in ('rawstencil', 'stencil', 'joined') and rng.random() < 0.3:
                buf = bytearray(5)
                f.seek(0)
                k = f.readinto(buf)
                c.equal(bytes(buf[:k]), content.slice(0, k), 'readinto')
                c.check(k > 0 or content.size == 0, 'readinto reports the end at the start')


ORACLES = [
    Oracle('file views', run_views, ['StenciledFile', 'RawStenciledFile', 'JoinedFile', 'JoinedFileFromFactory', 'LambdaReaderFile', 'ZeroFile', 'readinto'],
           'all views of at most 2 (thorough: 3) cut-outs of a 4-byte file, all positions and sizes; random histories of at most '
           '14 operations on views of at most 6 cut-outs over at most 4 files of up to 8 GiB, with short reads',
           quick_s=30, thorough_s=200),
]
LEVEL = 'proof'
TRUSTED = ['contract on the underlying files: seek(p) then read(n) returns a non-empty prefix of what lies at p (short reads allowed)',
           'contract on bisect.bisect_left', 'io.BufferedReader over a correct raw file is correct (CPython)']
ASSUMPTIONS = [
    'read is called with size >= -1, as io.BufferedReader does; cut-outs lie inside their files',
    'StenciledFile, JoinedFile and JoinedFileFromFactory wrap the proved raw classes in io.BufferedReader (trusted, exercised by bounded runs)',
    'RawJoinedFileFromFactory.__init__, readinto, seekable: bounded runs only',
]

if __name__ == '__main__':
    from pyvc.harness import show, verify

    show(verify(UNITS), False)
