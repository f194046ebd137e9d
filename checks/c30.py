"""C30 members that libarchive streams behave like ordinary files.

Contracts on every operation of LibarchiveFile against the contents of the member: the buffer holds a stretch of it, the stream stands
right behind that stretch, and every read returns the bytes at the position, whatever was read and sought before.  The cache of opened
archives hands out every archive to one file only, and archives that share a file object read it under its lock at their own position.
"""
import ctypes
import io
import os
import random
import stat
import threading
import zipfile

import z3

from checks import c17
from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp, LoopSpec
from pyvc.ops import mk_bool, mk_int
from pyvc.values import Host, Model, Obj, PyRaise, SList, Unsupported, zi
from ratarmountcore.mountsource import FileInfo
from ratarmountcore.mountsource.formats import libarchive as la
from ratarmountcore.SQLiteIndex import SQLiteIndex, SQLiteIndexedTarUserData

F = la.LibarchiveFile
Q = 'ratarmountcore.mountsource.formats.libarchive:'
LF = Q + 'LibarchiveFile.'


# ------------------------------------------------------------------------------------------------ one streamed member
class Seg(Model):
    """the bytes [start, start + n) of the member"""

    pytype = bytes

    def __init__(self, start, n):
        self.start, self.n = start, n

    def len(self, vc):
        return mk_int(self.n)

    def truth(self, vc):
        return self.n > 0


class Buffer(Model):
    """a ctypes buffer"""

    def __init__(self, length, start=None):
        self.length, self.start = length, start

    def len(self, vc):
        return mk_int(self.length)

    def truth(self, vc):
        return True


class Buffered(Model):
    """io.BytesIO with [start, start + n) of the member at the time of its creation"""

    pytype = io.BytesIO

    def __init__(self, start, n, at):
        self.start, self.n, self.at, self.closed = start, n, at, False

    def truth(self, vc):
        return True

    def m_tell(self, vc):
        return mk_int(self.at)

    def m_seek(self, vc, offset, whence=0):
        if whence != 0:
            raise Unsupported('whence')
        vc.prove(zi(offset) >= 0, 'no position before the start')
        self.at = zi(offset)
        vc.log_write(self, 'at')
        return mk_int(self.at)

    def m_read(self, vc, size=-1):
        size = z3.IntVal(-1) if size is None else zi(size)
        left = z3.If(self.n > self.at, self.n - self.at, 0)
        k = z3.simplify(z3.If(z3.And(size >= 0, size < left), size, left))
        r = Seg(self.start + self.at, k)
        self.at = self.at + k
        vc.log_write(self, 'at')
        return r

    def m_close(self, vc):
        self.closed = True

    def m_readable(self, vc):
        return True


class Archive(Model):
    """an opened archive: the entry it stands at, and how much of its contents were read"""

    def __init__(self, vc, w, n, at):
        self.w, self.n, self.at = w, n, at  # n: number of the next entry

    def m_entry_index(self, vc):
        return mk_int(self.n)

    def m_next_entry(self, vc):
        self.at = z3.IntVal(0)
        vc.log_write(self, 'n')
        if vc.branch(self.n >= self.w.total):
            return None
        index, self.n = self.n, self.n + 1
        return vc.new(Obj(la.ArchiveEntry, {'entry_index': mk_int(index)}, 'entry'))

    def m_read_data(self, vc, buffer, size):
        w = self.w
        vc.prove(self.n == w.entry + 1, 'only the member itself is read')
        vc.prove(z3.And(zi(size) >= 0, zi(size) <= buffer.length), 'the buffer is large enough')
        if vc.choose('a read error'):
            w.failed = True
            raise PyRaise(RuntimeError, ('read error',))
        left = w.size - self.at
        got = z3.If(zi(size) < left, zi(size), left)
        buffer.start = self.at
        buffer.filled = got
        self.at = z3.simplify(self.at + got)
        vc.log_write(self, 'at')
        return mk_int(got)


class World:
    def __init__(self, vc):
        self.size, self.entry, self.total, self.max = (vc.nat(k).z for k in ('size', 'entry', 'entries', 'buffer size'))
        vc.assume(self.max > 0)
        vc.assume(self.entry < self.total)
        self.failed, self.opened = False, 0
        self.archive = Archive(vc, self, self.entry + 1, None)
        self.vc = vc

    def file(self, vc, cache=None):
        self.me = vc.new(Obj(F, {'file': 'file', 'fileSize': mk_int(self.size), 'entry_index': mk_int(self.entry), 'passwords': None, '_archiveCache': cache, '_fileLock': 'lock', '_archive': self.archive,
                                 '_entry': 'entry', '_bufferSizeMax': mk_int(self.max), '_buffer': None, '_bufferOffset': 0, '_bufferIO': None}, 'file'))
        return self.me

    def arbitrary(self, vc, position=None):
        """any state of an opened file, at the given position"""
        me = self.me
        start, n, at = (vc.nat(k).z for k in ('buffer offset', 'buffered', 'buffer position'))
        vc.assume(z3.And(at <= n, start + n <= self.size, n <= self.max))
        if vc.branch(self.size == 0):
            buffer = None
            vc.assume(z3.And(start == 0, n == 0))
        else:
            buffer = Buffer(n, start)
            vc.assume(n > 0)
        me.fields.update(_buffer=buffer, _bufferOffset=mk_int(start), _bufferIO=Buffered(start, n, at), _archive=self.archive)
        self.archive.n, self.archive.at = self.entry + 1, start + n
        if position is not None:
            vc.assume(start + at == position)
        for k in ('_buffer', '_bufferOffset', '_bufferIO', '_archive'):
            vc.log_write(me, k)
        return start + at

    def check(self, vc, position=None, what='afterwards'):
        """the state is one of those, at the given position"""
        f = self.me.fields
        b, o, s = f['_buffer'], f['_bufferIO'], zi(f['_bufferOffset'])
        if not isinstance(o, Buffered):
            vc.prove(False, f'{what}: there is a buffer')
            return
        n = b.length if b is not None else z3.IntVal(0)
        vc.prove(z3.And(s >= 0, s + n <= self.size, n <= self.max, (n > 0) if b is not None else self.size == 0), f'{what}: the buffer is a stretch of the member')
        if b is not None:
            vc.prove(z3.And(o.start == s, o.n == n), f'{what}: it holds exactly the bytes of that stretch')
        vc.prove(z3.And(o.at >= 0, o.at <= o.n), f'{what}: the position is inside of it')
        a = f['_archive']
        vc.prove(a is not None and z3.And(a.n == self.entry + 1, a.at == s + n), f'{what}: the archive stands right behind it')
        if position is not None:
            vc.prove(s + o.at == position, f'{what}: position')

    # contracts for callers
    def contracts(self, *names):
        w = self

        def position():
            f = w.me.fields
            return zi(f['_bufferOffset']) + f['_bufferIO'].at

        def refill(interp, vc, me):
            f = me.fields
            b, o, s = f['_buffer'], f['_bufferIO'], zi(f['_bufferOffset'])
            n = b.length if b is not None else z3.IntVal(0)
            if o is None:
                vc.prove(z3.And(b is None, s == 0, f['_archive'].n == w.entry + 1, f['_archive'].at == 0), 'the first buffer is read right after finding the member')
                if vc.branch(w.size == 0):
                    return None
                w.fail(vc)
                w.arbitrary(vc, z3.IntVal(0))
                return None
            vc.prove(o.at >= o.n, 'nothing that is buffered is skipped')
            p = z3.simplify(s + o.at)
            w.fail(vc)
            w.arbitrary(vc, p)
            f = me.fields['_bufferIO']
            vc.assume(z3.Implies(p < w.size, f.n > f.at))

        def read1(interp, vc, me, size=-1):
            p = z3.simplify(position())
            w.fail(vc)
            k = vc.nat('read').z
            z = zi(size)
            vc.assume(z3.And(p + k <= w.size, z3.Or(z < 0, k <= z), z3.Implies(z3.And(p < w.size, z != 0), k > 0)))
            w.arbitrary(vc, p + k)
            return Seg(p, k)

        def skip(interp, vc, me, size):
            p = z3.simplify(position())
            w.fail(vc)
            d = z3.If(zi(size) > 0, zi(size), 0)
            w.arbitrary(vc, z3.If(p + d < w.size, p + d, w.size))

        def reopen(interp, vc, me):
            w.fail(vc)
            w.arbitrary(vc, z3.IntVal(0))

        def tell(interp, vc, me):
            return mk_int(position())
        table = {'_refill_buffer': refill, 'read1': read1, '_skip': skip, '_open': reopen, 'tell': tell}
        return {LF + k: table[k] for k in names}

    def fail(self, vc):
        if vc.choose('a read error'):
            self.failed = True
            raise PyRaise(RuntimeError, ('read error',))

    def run(self, vc, function, *args, contracts=(), loops=None, models=None):
        interp = Interp(vc, contracts=self.contracts(*contracts), loops=loops or {}, models={
            ctypes.create_string_buffer: lambda vc, n: Buffer(zi(n)), io.BytesIO: self.bytesio, **(models or {})})
        return attempt(lambda: interp.run_function(getattr(F, function), [self.me, *args]))

    def bytesio(self, vc, b=None):
        if b is None:
            return Buffered(z3.IntVal(0), z3.IntVal(0), z3.IntVal(0))
        vc.prove(b.start is not None and b.filled == b.length, 'only bytes of the member are shown')
        return Buffered(b.start, b.length, z3.IntVal(0))

    def refused(self, vc, r):
        vc.prove(self.failed, f'only read errors are raised (got {r.cls.__name__} at {r.where})')


def unit_refill(vc):
    w = World(vc)
    w.file(vc)
    if vc.choose('the first buffer'):
        w.archive.at, p, first = z3.IntVal(0), z3.IntVal(0), True
    else:
        p, first = w.arbitrary(vc), False
        vc.assume(w.me.fields['_bufferIO'].at == w.me.fields['_bufferIO'].n)
    kind, r = w.run(vc, '_refill_buffer')
    if kind == 'exc':
        return w.refused(vc, r)
    o = w.me.fields['_bufferIO']
    if first and o is None:
        vc.prove(z3.And(w.size == 0, zi(w.me.fields['_bufferOffset']) == 0, w.archive.at == 0, w.me.fields['_buffer'] is None), 'only empty members have no buffer')
        return
    w.check(vc, p)
    vc.prove(z3.Implies(p < w.size, o.n > o.at), 'there is more to read before the end')


def unit_read1(vc):
    w = World(vc)
    w.file(vc)
    p, size = w.arbitrary(vc), vc.int('size')
    kind, r = w.run(vc, 'read1', size, contracts=['_refill_buffer'])
    if kind == 'exc':
        return w.refused(vc, r)
    vc.prove(isinstance(r, Seg), 'bytes of the member')
    vc.prove(z3.Implies(r.n > 0, r.start == p), 'those at the position')
    vc.prove(z3.And(p + r.n <= w.size, z3.Or(size.z < 0, r.n <= size.z)), 'not more than there are and were asked for')
    vc.prove(z3.Implies(z3.And(p < w.size, size.z != 0), r.n > 0), 'something before the end')
    w.check(vc, p + r.n)


class Result(Model):
    """bytearray"""

    pytype = bytearray

    def __init__(self, start, n):
        self.start, self.n = start, n

    def len(self, vc):
        return mk_int(self.n)

    def truth(self, vc):
        return self.n > 0

    def m_extend(self, vc, x):
        vc.prove(z3.Implies(x.n > 0, x.start == self.start + self.n), 'the bytes are in order')
        self.n = self.n + x.n
        vc.log_write(self, 'n')

    def add(self, vc, x):
        r = Result(self.start, self.n)
        r.m_extend(vc, x)
        return r


def unit_read(vc):
    w = World(vc)
    w.file(vc)
    p, size = w.arbitrary(vc), vc.int('size')
    out = []

    def make(vc, *a):
        if a:
            return Seg(a[0].start, a[0].n)
        out.append(Result(p, z3.IntVal(0)))
        return out[-1]

    def here():
        f = w.me.fields
        return zi(f['_bufferOffset']) + f['_bufferIO'].at

    def inv(vc, L):
        n = L.result.n
        return [('what was read so far', z3.And(n >= 0, here() == p + n, p + n <= w.size, z3.Implies(size.z >= 0, n <= size.z)))]

    def fresh(vc):
        out[-1].n = vc.nat('so far').z
        w.arbitrary(vc, p + out[-1].n)
    interp_loops = {(LF + 'read', 0): LoopSpec(inv, heap=lambda vc, L: [(L.result, 'n', fresh)] + [(w.me, k, False) for k in ('_buffer', '_bufferOffset', '_bufferIO', '_archive')]
                                               + [(w.archive, k, False) for k in ('n', 'at')], havoc={'read_data': None},
                                               decreases=lambda vc, L: w.size - p - L.result.n)}
    kind, r = w.run(vc, 'read', size, contracts=['read1'], loops=interp_loops, models={bytearray: make, bytes: make})
    if kind == 'exc':
        return w.refused(vc, r)
    left = z3.If(w.size > p, w.size - p, 0)
    vc.prove(z3.And(r.n == z3.If(z3.And(size.z >= 0, size.z < left), size.z, left), r.start == p), 'as many bytes as asked for or there are')
    w.check(vc, p + r.n)


def unit_skip(vc):
    w = World(vc)
    w.file(vc)
    p, size = w.arbitrary(vc), vc.int('size')

    def here():
        f = w.me.fields
        return zi(f['_bufferOffset']) + f['_bufferIO'].at
    goal = z3.If(size.z > 0, p + size.z, p)

    def inv(vc, L):
        left = zi(L.size)
        return [('what is left', z3.And(here() >= p, here() <= w.size, z3.If(size.z > 0, z3.And(left >= 0, here() + left == goal), z3.And(left <= 0, here() == p))))]

    def fresh(vc):
        w.arbitrary(vc)
    loops = {(LF + '_skip', 0): LoopSpec(inv, heap=lambda vc, L: [(w.archive, 'at', fresh), (w.archive, 'n', False)] + [(w.me, k, False) for k in ('_buffer', '_bufferOffset', '_bufferIO', '_archive')], havoc={'data': None}, decreases=lambda vc, L: zi(L.size))}
    kind, r = w.run(vc, '_skip', size, contracts=['read1'], loops=loops)
    if kind == 'exc':
        return w.refused(vc, r)
    w.check(vc, z3.If(goal < w.size, goal, w.size))


def unit_seek(vc):
    w = World(vc)
    w.file(vc)
    p, offset = w.arbitrary(vc), vc.int('offset')
    whence = vc.pick(3)
    args = [offset] if whence == 0 and vc.choose('default') else [offset, whence]
    kind, r = w.run(vc, 'seek', *args, contracts=['_skip', '_open', 'tell'])
    if kind == 'exc':
        return w.refused(vc, r)
    goal = offset.z + (z3.IntVal(0), p, w.size)[whence]
    goal = z3.If(goal < 0, 0, z3.If(goal > w.size, w.size, goal))
    vc.prove(zi(r) == goal, 'the new position is returned')
    w.check(vc, goal)


def unit_tell(vc):
    w = World(vc)
    w.file(vc)
    p = w.arbitrary(vc)
    kind, r = w.run(vc, 'tell')
    vc.prove(kind == 'ok', 'nothing is raised')
    if kind == 'ok':
        vc.prove(zi(r) == p, 'the position')


class Cache(Model):
    def __init__(self, w):
        self.w, self.inserted = w, []

    def truth(self, vc):
        return True

    def m_take(self, vc, entry_index):
        vc.prove(zi(entry_index) == self.w.entry, 'an archive in front of the member is asked for')
        if vc.choose('nothing suitable is cached'):
            return None
        n = vc.nat('entry of the cached archive').z
        vc.assume(n < self.w.entry)
        return Archive(vc, self.w, n, vc.nat('read').z)

    def m_insert(self, vc, archive):
        self.inserted.append(archive)


def unit_close(vc):
    w = World(vc)
    cache = Cache(w)
    w.file(vc, cache)
    was_open = vc.choose('open')
    if was_open:
        w.arbitrary(vc)
    else:
        w.me.fields['_archive'] = None
    io_ = w.me.fields['_bufferIO']
    kind, _r = w.run(vc, 'close')
    vc.prove(kind == 'ok', 'nothing is raised')
    f = w.me.fields
    vc.prove(len(cache.inserted) == was_open and all(a is w.archive for a in cache.inserted), 'the archive is given back exactly once')
    vc.prove(f['_archive'] is None and f['_bufferIO'] is None and f['_buffer'] is None, 'nothing is kept')
    vc.prove(zi(f['_bufferOffset']) == 0, 'the next buffer is the first one')
    vc.prove(io_ is None or io_.closed, 'the buffer is closed')


def unit_open(vc):
    w = World(vc)
    w.total = vc.nat('entries there are').z  # the archive might have changed
    cache = Cache(w)
    w.file(vc, cache)
    if vc.choose('open'):
        w.arbitrary(vc)
    else:
        w.me.fields['_archive'] = None
    made = []

    def archive(vc, file, *a, **k):
        vc.prove(file == 'file' and k.get('fileLock') == 'lock', 'the same file is opened, with the lock it is shared under')
        made.append(Archive(vc, w, z3.IntVal(0), z3.IntVal(0)))
        return made[-1]

    def close(interp, vc, me):
        me.fields.update(_archive=None, _bufferIO=None, _buffer=None, _entry=None, _bufferOffset=0)

    def fresh(vc):
        a = w.me.fields['_archive']
        a.n = vc.nat('next entry').z

    def inv(vc, L):
        f = w.me.fields
        return [('the member was not skipped', z3.And(f['_archive'].n <= w.entry)), ('nothing is buffered yet', f['_bufferIO'] is None and f['_buffer'] is None)]
    loops = {(LF + '_open', 0): LoopSpec(inv, heap=lambda vc, L: [(w.me.fields['_archive'], 'n', fresh), (w.me, '_entry', False), (w.me.fields['_archive'], 'at', False)],
                                         decreases=lambda vc, L: w.total - w.me.fields['_archive'].n)}
    interp = Interp(vc, contracts={**w.contracts('_refill_buffer'), LF + 'close': close}, loops=loops, models={la.IterableArchive: archive, io.BytesIO: w.bytesio})
    w.archive_of = w.me
    kind, r = attempt(lambda: interp.run_function(F._open, [w.me]))
    if kind == 'exc':
        vc.prove(z3.Or(w.failed, w.total <= w.entry), f'only read errors and missing members are reported (got {r.cls.__name__} at {r.where})')
        return
    w.check(vc, z3.IntVal(0))


def unit_init(vc):
    w = World(vc)
    me = vc.new(Obj(F, {}, 'file'))
    cache, seen = Cache(w), []

    def open_(interp, vc, me):
        f = me.fields
        seen.append(1)
        vc.prove(f['_archive'] is None and f['_bufferIO'] is None and f['_buffer'] is None and zi(f['_bufferOffset']) == 0, 'nothing is open')
        vc.prove(z3.And(zi(f['_bufferSizeMax']) > 0, zi(f['entry_index']) == w.entry, zi(f['fileSize']) == w.size), 'the member')
        vc.prove(f['_archiveCache'] is cache and f['_fileLock'] == 'lock' and f['file'] == 'file' and f['passwords'] == 'passwords', 'the archive')
    interp = Interp(vc, contracts={LF + '_open': open_}, models={io.RawIOBase.__init__: lambda vc, *a: None})
    kind, _r = attempt(lambda: interp.run_function(F.__init__, [me, 'file', mk_int(w.entry)], {'fileSize': mk_int(w.size), 'passwords': 'passwords', 'archiveCache': cache, 'fileLock': 'lock'}))
    vc.prove(kind == 'ok' and seen == [1], 'the member is opened')


def unit_source_open(vc):
    w = World(vc)
    header, size = vc.nat('header'), vc.nat('member size')
    userdata = vc.new(Obj(SQLiteIndexedTarUserData, {'offset': vc.nat('offset'), 'offsetheader': header, 'istar': False, 'issparse': False, 'isgenerated': False, 'recursiondepth': 0}, 'userdata'))
    info = vc.new(Obj(FileInfo, {'mode': 0o100644, 'size': size, 'userdata': vc.new(SList(items=[userdata])), 'linkname': ''}, 'info'))
    me = vc.new(Obj(la.LibarchiveMountSource, {'fileOrPath': 'file', 'passwords': 'passwords', '_archiveCache': 'cache', '_fileLock': 'lock'}, 'source'))
    seen = []

    def file(vc, f, entry_index, fileSize=None, passwords=None, archiveCache=None, fileLock=None):
        seen.append(1)
        vc.prove(f == 'file' and passwords == 'passwords' and archiveCache == 'cache' and fileLock == 'lock', 'the archive, with its cache and its lock')
        vc.prove(z3.And(zi(entry_index) == header.z, zi(fileSize) == size.z), 'the member')
        return 'opened'
    interp = Interp(vc, models={F: file})
    kind, r = attempt(lambda: interp.run_function(la.LibarchiveMountSource.open, [me, info] + ([-1] if vc.choose('buffering') else [])))
    vc.prove(kind == 'ok' and r == 'opened' and seen == [1], 'the member is opened')
    return w


# ------------------------------------------------------------------------------------------------ cached archives
class Lock(Model):
    def __init__(self):
        self.held = False

    def enter(self, vc):
        vc.prove(not self.held, 'the lock is not taken twice')
        self.held = True

    def exit(self, vc, e=None):
        self.held = False

    def m_acquire(self, vc, *a):
        self.enter(vc)
        return True

    def m_release(self, vc):
        self.held = False


class Guarded(Model):
    """a list that is only used under its lock"""

    pytype = list

    def __init__(self, items, lock):
        self.items, self.lock = items, lock

    def use(self, vc):
        vc.prove(self.lock.held, 'the cache is only used under its lock')

    def len(self, vc):
        self.use(vc)
        return len(self.items)

    def truth(self, vc):
        self.use(vc)
        return bool(self.items)

    def m_append(self, vc, x):
        self.use(vc)
        self.items.append(x)

    def m_pop(self, vc, k=-1):
        self.use(vc)
        k = zi(k)
        for n in range(len(self.items)):
            if vc.branch(z3.Or(k == n, k == n - len(self.items))):
                return self.items.pop(n)
        raise PyRaise(IndexError, ('pop index out of range',))

    def m_remove(self, vc, x):
        self.use(vc)
        self.items[:] = [y for y in self.items if y is not x]

    def getitem(self, vc, k):
        self.use(vc)
        k = zi(k)
        for n, x in enumerate(self.items):
            if vc.branch(z3.Or(k == n, k == n - len(self.items))):
                return x
        raise PyRaise(IndexError, ('list index out of range',))

    def iterate(self, vc):
        self.use(vc)
        return SList(items=list(self.items))


class Cached(Model):
    def __init__(self, n):
        self.n = n

    def m_entry_index(self, vc):
        return mk_int(self.n)


SIZE = la.IterableArchiveCache().cacheSize


def cache_of(vc, count, size=SIZE):
    lock = Lock()
    items = [Cached(vc.nat('entry').z) for _ in range(count)]
    cached = Guarded(list(items), lock)
    return vc.new(Obj(la.IterableArchiveCache, {'cacheSize': size, '_cache': cached, '_lock': lock}, 'cache')), items, cached


def unit_take(count):
    def run(vc):
        me, items, cached = cache_of(vc, count)
        wanted = vc.nat('wanted')
        kind, r = attempt(lambda: Interp(vc).run_function(la.IterableArchiveCache.take, [me, wanted]))
        if kind == 'exc':
            vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
            return
        vc.prove(not cached.lock.held, 'the lock is released')
        if r is None:
            vc.prove(cached.items == items, 'nothing is removed')
            vc.prove(z3.And([x.n >= wanted.z for x in items]), 'none is in front of the member')
            return
        vc.prove(sum(x is r for x in items) == 1 and [x for x in items if x is not r] == cached.items, 'exactly the one that is returned is removed')
        vc.prove(r.n <= wanted.z, 'it is in front of the member')
    return run


def unit_insert(count):
    def run(vc):
        me, items, cached = cache_of(vc, count)
        new = Cached(vc.nat('new').z)
        kind, r = attempt(lambda: Interp(vc).run_function(la.IterableArchiveCache.insert, [me, new]))
        if kind == 'exc':
            vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
            return
        vc.prove(not cached.lock.held, 'the lock is released')
        left = cached.items
        vc.prove(len(left) <= SIZE, 'not more are kept than allowed')
        vc.prove(len(set(map(id, left))) == len(left) and all(any(x is y for y in items + [new]) for x in left), 'every archive is kept at most once')
        vc.prove(count >= SIZE or len(left) == count + 1, 'none is dropped while there is room')
    return run


# ------------------------------------------------------------------------------------------------ a shared file object
class Shared(Model):
    """the file object: others move it whenever the lock is not held"""

    def __init__(self, vc, lock, seekable, size):
        self.lock, self.can_seek, self.size, self.reads = lock, seekable, size, []
        self.position = None

    def where(self, vc):
        if self.position is None:
            self.position = vc.nat('elsewhere').z
        return self.position

    def m_seekable(self, vc):
        return self.can_seek

    def use(self, vc):
        vc.prove(self.lock.held, 'the file is only used under its lock')

    def m_tell(self, vc):
        self.use(vc)
        return mk_int(self.where(vc))

    def m_seek(self, vc, offset, whence=0):
        self.use(vc)
        whence = int(whence) if isinstance(whence, int) else whence
        if whence not in (0, 1, 2):
            raise Unsupported('whence')
        p = zi(offset) + (z3.IntVal(0), self.where(vc), self.size)[whence]
        if vc.branch(p < 0):
            raise PyRaise(OSError, (22,))
        self.position = p
        return mk_int(p)

    def m_readinto(self, vc, buffer):
        self.use(vc)
        k = vc.nat('read').z
        vc.assume(k <= buffer.length)
        p = self.where(vc)
        self.reads.append((p, k, buffer))
        self.position = p + k
        return mk_int(k)


class SharedLock(Lock):
    file = None

    def exit(self, vc, e=None):
        self.held = False
        self.file.position = None  # others may move it now


class Slot(Model):
    def __init__(self):
        self.value = None

    def setitem(self, vc, k, v):
        self.value = v


def callbacks(vc, seekable):
    lock = SharedLock()
    file = Shared(vc, lock, seekable, vc.nat('file size').z)
    lock.file = file
    found = {}
    size = vc.nat('buffer size')
    me = vc.new(Obj(la.IterableArchive, {'_file': file, '_fileLock': lock, 'bufferSize': size, '_archive': 'archive', '_buffer': None, '_readCallback': None, '_seekCallback': None, '_position': 0}, 'archive'))

    class Library(Model):
        """libarchive.ffi"""

        def m_READ_CALLBACK(self, vc, f):
            return f

        def m_SEEK_CALLBACK(self, vc, f):
            return f

        def a_NO_OPEN_CB(self, vc):
            return None

        def a_NO_CLOSE_CB(self, vc):
            return None

        def m_read_open(self, vc, archive, context, o, read, close):
            vc.prove(archive == 'archive' and read is me.fields['_readCallback'], 'the archive reads through the callback, which is kept alive')
            found['read'] = read

        def m_read_set_seek_callback(self, vc, archive, f):
            vc.prove(archive == 'archive' and f is me.fields['_seekCallback'], 'the archive seeks through the callback, which is kept alive')
            found['seek'] = f
    models = {ctypes.cast: lambda vc, x, t: x, ctypes.POINTER: lambda vc, t: None, ctypes.create_string_buffer: lambda vc, n: Buffer(zi(n))}
    interp = Interp(vc, models=models)
    interp.global_values['laffi'] = Library()
    kind, r = attempt(lambda: interp.run_function(la.IterableArchive._open_with_file_object, [me]))
    if kind == 'exc':
        vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
        return None
    vc.prove('read' in found and ('seek' in found) == seekable, 'the callbacks are installed')
    vc.prove(not seekable or zi(me.fields['_position']) == 0, 'the archive is read from the start')
    return interp, me, file, found


def unit_callback_read(seekable):
    def run(vc):
        state = callbacks(vc, seekable)
        if state is None:
            return
        interp, me, file, found = state
        p = vc.nat('position')
        me.fields['_position'] = p
        file.reads.clear()
        slot = Slot()
        kind, r = attempt(lambda: interp.call(found['read'], ['archive', None, slot], {}))
        if kind == 'exc':
            vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
            return
        vc.prove(not file.lock.held, 'the lock is released')
        vc.prove(len(file.reads) == 1, 'one read')
        at, k, buffer = file.reads[0]
        vc.prove(z3.And(zi(r) == k, z3.BoolVal(slot.value is buffer)), 'what was read is passed on')
        if seekable:
            vc.prove(at == p.z, 'it is read where this archive is, wherever others left the file')
            vc.prove(zi(me.fields['_position']) == p.z + k, 'the next read continues there')
    return run


def unit_callback_seek(vc):
    state = callbacks(vc, True)
    if state is None:
        return
    interp, me, file, found = state
    p, offset, whence = vc.nat('position'), vc.int('offset'), vc.pick(3)
    me.fields['_position'] = p
    kind, r = attempt(lambda: interp.call(found['seek'], ['archive', None, offset, whence], {}))
    goal = offset.z + (z3.IntVal(0), p.z, file.size)[whence]
    if kind == 'exc':
        vc.prove(goal < 0, f'only positions before the start are refused (got {r.cls.__name__} at {r.where})')
        return
    vc.prove(not file.lock.held, 'the lock is released')
    vc.prove(z3.And(zi(r) == goal, zi(me.fields['_position']) == goal), 'the archive is where it was sent to')


def unit_next_entry(vc):
    n = vc.nat('next')
    first, eof = vc.choose('ended before'), vc.choose('at the end')
    made = []

    def entry(vc, archive, entry_index=None, encoding='utf-8'):
        vc.prove(archive == 'archive' and zi(entry_index) == n.z and encoding == 'encoding', 'the next entry, under its number')
        made.append(vc.new(Obj(la.ArchiveEntry, {'eof': eof, 'entry_index': entry_index}, 'entry')))
        return made[-1]
    me = vc.new(Obj(la.IterableArchive, {'_eof': first, '_archive': 'archive', 'encoding': 'encoding', '_entryIndex': n, '_entry': None}, 'archive'))
    interp = Interp(vc, models={la.ArchiveEntry: entry, la.logger.isEnabledFor: lambda vc, *a: False})
    kind, r = attempt(lambda: interp.run_function(la.IterableArchive.next_entry, [me]))
    if kind == 'exc':
        vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
        return
    if first or eof:
        vc.prove(r is None and len(made) == (not first) and me.fields['_eof'] is True, 'nothing comes after the end')
        return
    vc.prove(len(made) == 1 and r is made[0], 'the entry')
    vc.prove(zi(me.fields['_entryIndex']) == n.z + 1, 'the next one has the next number')


# ------------------------------------------------------------------------------------------------ oracles
def cpio(members):
    out = b''
    for k, (name, data) in enumerate([*members.items(), (b'TRAILER!!!', b'')]):
        out += b'070701' + b''.join(b'%08x' % v for v in (k + 1, 0o100644, 7, 8, 1, 1234567, len(data), 0, 0, 0, 0, len(name) + 1, 0)) + name + b'\0'
        out += b'\0' * (-len(out) % 4) + data
        out += b'\0' * (-len(out) % 4)
    return out


def zipped(members):
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w') as z:
        for k, (n, d) in enumerate(members.items()):
            z.writestr(zipfile.ZipInfo(n.decode(), (1990, 1, 1, 0, 0, 0)), d, zipfile.ZIP_STORED if k % 2 else zipfile.ZIP_DEFLATED, 1)
    return b.getvalue()


BLOCK = 1024 * 1024
SIZES = (0, 1, 5, 4096, BLOCK - 1, BLOCK, BLOCK + 1, 2 * BLOCK - 1, 2 * BLOCK, 2 * BLOCK + 7)
POOL = random.Random(7).randbytes(3 * BLOCK)


def run_files(ctx):
    """several opened members of an archive, used in turns, next to io.BytesIO"""
    c17.quiet()
    rng = ctx.rng
    for number in range(ctx.budget(60, 3000)):
        if ctx.out_of_time():
            return
        members = {}
        for k in range(rng.choice((1, 2, 4, 7))):
            start = rng.randrange(1000)
            members[b'm%d' % k] = POOL[start:start + rng.choice(SIZES)]
        by_path, kind = rng.random() < 0.4, rng.choice((cpio, zipped))
        with ctx.case({'sizes': [len(d) for d in members.values()], 'by path': by_path, 'kind': kind.__name__, 'case': number}) as c:
            data = kind(members)
            source = io.BytesIO(data)
            if by_path:
                source = os.path.join(ctx.tmp(), 'archive')
                with open(source, 'wb') as f:
                    f.write(data)
            ms = la.LibarchiveMountSource(source)
            try:
                files = []
                for step in range(rng.choice((5, 30))):
                    if not files or (rng.random() < 0.25 and len(files) < 8):
                        n = rng.choice(list(members))
                        i = ms.lookup('/' + n.decode())
                        c.equal(i.size, len(members[n]), 'the size', name=n)
                        files.append((n, ms.open(i), io.BytesIO(members[n])))
                    n, f, want = rng.choice(files)
                    size = len(members[n])
                    op = rng.choice(('read', 'read', 'seek', 'seek', 'all', 'read1', 'close', 'skip'))
                    if op == 'read':
                        k = rng.choice((0, 1, 100, BLOCK, BLOCK + 1, 3 * BLOCK))
                        c.equal(f.read(k), want.read(k), 'the bytes at the position', name=n, step=step)
                    elif op == 'all':
                        c.equal(f.read(), want.read(), 'the bytes up to the end', name=n, step=step)
                    elif op == 'read1':
                        k = rng.choice((0, 1, 100, BLOCK, -1))
                        got = f.read1(k)
                        c.equal(got, want.read(len(got)), 'bytes at the position', name=n, step=step)
                        c.check(k < 0 or len(got) <= k, 'not more than asked for', name=n, step=step)
                    elif op == 'close' and len(files) > 1:
                        f.close()
                        files = [x for x in files if x[1] is not f]
                        continue
                    elif op == 'skip':
                        k = min(rng.choice((0, 1, BLOCK)), size - want.tell())
                        c.equal(f.seek(k, 1), want.seek(want.tell() + k), 'relative positions', name=n, step=step)
                    else:
                        p = min(size, rng.choice((0, 1, BLOCK - 1, BLOCK, BLOCK + 1, size, max(0, size - 1), rng.randrange(size + 1))))
                        got = f.seek(p - size, 2) if rng.random() < 0.3 else f.seek(p)
                        c.equal(got, want.seek(p), 'positions', name=n, step=step)
                    c.equal(f.tell(), want.tell(), 'the position', name=n, step=step)
                for _n, f, _w in files:
                    f.close()
            finally:
                ms.__exit__(None, None, None)


def run_threads(ctx):
    """members read from several threads"""
    c17.quiet()
    rng = ctx.rng
    for number in range(ctx.budget(6, 300)):
        if ctx.out_of_time():
            return
        members = {b'm%d' % k: POOL[k * 100:k * 100 + rng.choice(SIZES)] for k in range(6)}
        with ctx.case({'sizes': [len(d) for d in members.values()], 'case': number}) as c:
            ms = la.LibarchiveMountSource(io.BytesIO(rng.choice((cpio, zipped))(members)))
            wrong, infos = [], {n: ms.lookup('/' + n.decode()) for n in members}

            def work(seed, ms=ms, members=members, wrong=wrong, infos=infos):
                r = random.Random(seed)
                try:
                    for _ in range(10):
                        n = r.choice(list(members))
                        with ms.open(infos[n]) as f:
                            got = b''.join(iter(lambda f=f: f.read(300000), b''))
                        if got != members[n]:
                            wrong.append(n)
                except Exception as e:  # pylint: disable=broad-except
                    wrong.append(repr(e))
            threads = [threading.Thread(target=work, args=(rng.random(),)) for _ in range(4)]
            for t in threads:
                t.start()
            for t in threads:
                t.join()
            ms.__exit__(None, None, None)
            c.equal(wrong, [], 'every reader gets the bytes of its member')


ORACLES = [
    Oracle('files', run_files, [F.read, F.seek, F.read1, F._open, F._refill_buffer], '60 (3000) archives with up to 7 members of up to 2 MiB and 8 opened files used in turns', quick_s=30),
    Oracle('threads', run_threads, [la.LibarchiveMountSource.open, la.IterableArchiveCache.take], '6 (300) archives read from 4 threads', quick_s=20),
]
ASSUMPTIONS = [
    'libarchive returns as many bytes of a member as asked for until its end, from what the callbacks return',
    f'the cache of opened archives keeps {SIZE} archives, as its only caller asks for; positions outside of a member are moved to its start or end, as the code documents by its clamping',
    'indexing (IterableArchive without shared lock) is over before members are opened',
]
UNITS = [
    Unit('refill', unit_refill, [F._refill_buffer]), Unit('read1', unit_read1, [F.read1]), Unit('read', unit_read, [F.read]), Unit('skip', unit_skip, [F._skip]),
    Unit('seek', unit_seek, [F.seek]), Unit('tell', unit_tell, [F.tell]), Unit('close', unit_close, [F.close]), Unit('open', unit_open, [F._open]), Unit('init', unit_init, [F.__init__]),
    Unit('source open', unit_source_open, [la.LibarchiveMountSource.open]), Unit('next entry', unit_next_entry, [la.IterableArchive.next_entry]),
    *[Unit(f'take[{k}]', unit_take(k), [la.IterableArchiveCache.take]) for k in range(SIZE + 1)],
    *[Unit(f'insert[{k}]', unit_insert(k), [la.IterableArchiveCache.insert]) for k in range(SIZE + 1)],
    Unit('callback read', unit_callback_read(True), [la.IterableArchive._open_with_file_object]), Unit('callback read[stream]', unit_callback_read(False), [la.IterableArchive._open_with_file_object]),
    Unit('callback seek', unit_callback_seek, [la.IterableArchive._open_with_file_object]),
]
