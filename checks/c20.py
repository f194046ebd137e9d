"""C20 FUSE handles stay distinct and reads use their own file and offset.

Contracts on the operations of FuseMount that deal with handles, for an arbitrary table of open handles, one arbitrary handle that is
asked for and one arbitrary other one; and runs with many handles open at the same time on all kinds of sources.
"""
import errno
import gzip
import inspect
import io
import os
import shutil
import tarfile

import z3

from checks import overlay
from checks.common import quiet
from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp
from pyvc.ops import mk_bool
from pyvc.values import Model, Obj, PyRaise, SInt, SReal, SStr, Unsupported, zi
from ratarmount.FuseMount import CommandFile, FuseMount
from ratarmount.fuse import fuse
from ratarmountcore.mountsource import FileInfo

Q = 'ratarmount.FuseMount:FuseMount.'


class File(Model):
    """an opened file of the mount source"""

    pytype = io.RawIOBase

    def __init__(self, vc, name):
        self.name, self.position, self.log, self.closed = name, vc.nat(name + '_position').z, [], 0
        self.data = z3.Function(name + '_data', z3.IntSort(), z3.IntSort(), z3.IntSort())

    def touch(self, vc, what):
        vc.prove(self.closed == 0, 'closed files are not used')
        self.log.append(what)

    def m_seek(self, vc, offset, whence=0):
        if whence != 0:
            raise Unsupported('relative seek')
        self.touch(vc, 'seek')
        self.position = zi(offset)
        return offset

    def m_tell(self, vc):
        return SInt(self.position)

    def m_read(self, vc, size=-1):
        self.touch(vc, 'read')
        return Bytes(self, self.position, size)

    def m_write(self, vc, data):
        self.touch(vc, ('write', self.position, data))
        return vc.nat('written')

    def m_writable(self, vc):
        return vc.bool('writable')

    def m_seekable(self, vc):
        return vc.bool('seekable')

    def m_close(self, vc):
        self.closed += 1
        return None


class Command(File):
    pytype = CommandFile


class Bytes(Model):
    def __init__(self, file, at, size):
        self.file, self.at, self.size = file, at, size


class Handles(Model):
    """the table of open handles; which numbers are in use is arbitrary"""

    def __init__(self, vc, make):
        self.vc, self.make = vc, make
        self.used = z3.Array(vc.name('in_use'), z3.IntSort(), z3.BoolSort())
        self.entries, self.gone = [], []

    def find(self, k):
        k = zi(k)
        for z, e in self.entries:
            if z.eq(k) or self.vc.branch(z == k):
                return e
        e = self.make()
        self.entries.append((k, e))
        return e

    def contains(self, vc, k):
        return mk_bool(self.used[zi(k)])

    def len(self, vc):
        # any number of handles, which says nothing about which of the numbers are in use
        n, k = vc.nat('open handles'), z3.Int('k_handles')
        vc.assume(z3.Implies(n.z == 0, z3.ForAll([k], z3.Not(self.used[k]))))
        return n

    def truth(self, vc):
        return zi(self.len(vc)) > 0

    def getitem(self, vc, k):
        if not vc.branch(self.used[zi(k)]):
            raise PyRaise(KeyError, (k,))
        return self.find(k)

    def setitem(self, vc, k, v):
        k = zi(k)
        if vc.branch(self.used[k]):
            self.find(k)
            self.entries = [(z, v if z.eq(k) or vc.branch(z == k) else e) for z, e in self.entries]
        else:
            self.entries.insert(0, (k, v))
        self.used = z3.Store(self.used, k, True)

    def m_pop(self, vc, k, *default):
        if not vc.branch(self.used[zi(k)]):
            if default:
                return default[0]
            raise PyRaise(KeyError, (k,))
        e = self.find(k)
        self.used = z3.Store(self.used, zi(k), False)
        return e

    m___delitem__ = m_pop

    def m_get(self, vc, k, default=None):
        return self.find(k) if vc.branch(self.used[zi(k)]) else default


class Union(Model):
    """the mount source; every operation may fail"""

    def __init__(self, vc, info):
        self.vc, self.info, self.log = vc, info, []
        self.file = File(vc, 'opened')

    def m_lookup(self, vc, path, fileVersion=0):
        raise Unsupported('lookup past _lookup')

    def m_open(self, vc, info, buffering=-1):
        self.log.append(('open', info, buffering))
        if vc.choose('opening fails'):
            raise PyRaise(OSError, ('fails',))
        return self.file

    def m_read(self, vc, info, size, offset):
        self.log.append(('read', info, size, offset))
        if vc.choose('reading fails'):
            raise PyRaise(OSError, ('fails',))
        return self.file


class OverlayModel(Model):
    def __init__(self, vc):
        self.log, self.fd = [], vc.nat('new_fd')
        self.result = vc.val('result')

    def may_fail(self, vc):
        if vc.choose('the overlay fails'):
            raise PyRaise(OSError, ('fails',))

    def m_create(self, vc, *args):
        self.log.append(('create', *args))
        self.may_fail(vc)
        return self.fd

    def m_open(self, vc, *args):
        self.log.append(('open', *args))
        self.may_fail(vc)
        return self.fd

    def m_write(self, vc, *args):
        self.log.append(('write', *args))
        self.may_fail(vc)
        return self.result

    def m_truncate(self, vc, *args):
        self.log.append(('truncate', *args))
        self.may_fail(vc)
        return self.result

    def m_flush(self, vc, *args):
        self.log.append(('flush', *args))
        self.may_fail(vc)

    def m_fsync(self, vc, *args):
        self.log.append(('fsync', *args))
        self.may_fail(vc)


class Setting:
    """h: the handle of the operation; o: another one, in use"""

    def __init__(self, vc, overlay_=None):
        self.vc = vc
        self.h, self.o = vc.int('handle'), vc.int('other')
        self.files = []
        self.last = vc.nat('lastFileHandle')
        self.handles = Handles(vc, self.make)
        self.path = vc.str('path')
        self.overlay = OverlayModel(vc) if (vc.choose('overlay') if overlay_ is None else overlay_) else None
        self.info = vc.new(Obj(FileInfo, {n: vc.val(n) for n in ('size', 'mtime', 'mode', 'linkname', 'uid', 'gid', 'userdata')}, 'info'))
        self.union = Union(vc, self.info)
        self.self = vc.new(Obj(FuseMount, {'openedFiles': self.handles, 'lastFileHandle': self.last, 'writeOverlay': self.overlay, 'mountSource': self.union,
                                           '_enableControlInterface': vc.choose('control interface'), '_controlLayerPrefix': '/.ratarmount-control/'}, 'mount'))
        vc.assume(z3.And(self.o.z != self.h.z, self.handles.used[self.o.z]))
        k = z3.Int('k')
        vc.assume(z3.ForAll([k], z3.Implies(self.handles.used[k], z3.And(0 < k, k <= self.last.z))))
        self.asked, self.fd_log = [], []
        self.other = self.handles.find(self.o)
        self.was_used = self.handles.used
        self.positions = {}

    def make(self):
        vc = self.vc
        kind = vc.pick(3, 'file of the overlay, of the archive, or command') if self.overlay_possible() else 1 + vc.pick(2, 'file of the archive or command')
        f = vc.nat('fd') if kind == 0 else File(vc, 'file') if kind == 1 else Command(vc, 'command')
        self.files.append(f)
        return (vc.int('flags'), f)

    def overlay_possible(self):
        return self.overlay is not None

    def lookup(self, interp, vc, self_, path):
        vc.prove(path is self.path, 'the path asked for is looked up')
        self.asked.append(path)
        if vc.choose('missing'):
            raise PyRaise(fuse.FuseOSError, (errno.ENOENT,))
        return self.info

    def models(self):
        def lseek(vc, fd, offset, whence=0):
            if whence != 0:
                raise Unsupported('relative seek')
            self.positions[id(fd)] = offset
            return offset

        def read(vc, fd, size):
            vc.prove(id(fd) in self.positions, 'the position is set before reading')
            self.fd_log.append(('read', fd))
            return Bytes(fd, zi(self.positions[id(fd)]), size)

        def pread(vc, fd, size, offset):
            self.fd_log.append(('read', fd))
            return Bytes(fd, zi(offset), size)

        def close(vc, fd):
            self.fd_log.append(('close', fd))
        return {os.lseek: lseek, os.read: read, os.pread: pread, os.close: close}

    def run(self, name, *args):
        interp = Interp(self.vc, contracts={Q + '_lookup': self.lookup}, models=self.models())
        self.kind, self.result = attempt(lambda: interp.run_function(inspect.unwrap(getattr(FuseMount, name)), [self.self, *args]))
        h, vc = self.handles, self.vc
        vc.prove(h.used[self.o.z], 'other handles stay open')
        now = h.find(self.o)
        vc.prove(now is self.other, 'other handles keep their file')
        f = self.other[1]
        if isinstance(f, File):
            vc.prove(f.closed == 0 and not f.log, 'files of other handles are not used')
        else:
            vc.prove(all(x[1] is not f for x in self.fd_log), 'files of other handles are not used')
        return self.kind == 'ok'

    def invariant(self, *keys):
        last = zi(self.self.fields['lastFileHandle'])
        for k in (self.h.z, self.o.z, *keys):
            self.vc.prove(z3.Implies(self.handles.used[k], z3.And(0 < k, k <= last)), 'all handles in use are numbers given out before')

    def error(self, code, what):
        self.vc.prove(self.kind == 'exc' and self.result.cls is fuse.FuseOSError and tuple(self.result.exc_args) == (code,), what)

    def new_handle(self, flags, file):
        vc, r = self.vc, self.result
        vc.prove(isinstance(r, SInt), 'a handle is returned')
        vc.prove(z3.And(r.z > 0, z3.Not(self.was_used[r.z]), r.z != self.o.z), 'the handle is not in use')
        vc.prove(self.handles.used[r.z], 'the handle is kept')
        e = self.handles.find(r)
        vc.prove(isinstance(e, tuple) and e[1] is file and (flags is None or e[0] is flags), 'the handle is for the opened file')
        self.invariant(r.z)


def unit_add(vc):
    s = Setting(vc)
    f, flags = File(vc, 'new'), vc.int('flags')
    vc.prove(s.run('_add_new_handle', f, flags), 'a handle is returned')
    s.new_handle(flags, f)


def unit_open(vc):
    s = Setting(vc)
    flags = vc.int('flags')
    if s.run('open', s.path, flags):
        vc.prove(s.asked == [s.path] and [x[0] for x in s.union.log] == ['open'] and s.union.log[0][1] is s.info, 'the file of the path is opened')
        s.new_handle(flags, s.union.file)
        vc.prove(s.union.file.closed == 0, 'the file stays open')
    else:
        s.error(errno.EIO if s.union.log else errno.ENOENT, 'what does not exist or cannot be opened is reported as such')
        s.invariant()
        vc.prove(s.handles.used == s.was_used, 'a failed open leaves no handle')


def unit_create(vc):
    s = Setting(vc)
    mode = vc.int('mode')
    if s.run('create', s.path, mode):
        vc.prove(s.overlay is not None and s.overlay.log[0][:3] == ('create', s.path, mode) and len(s.overlay.log) == 1, 'the file is created once in the overlay')
        s.new_handle(None, s.overlay.fd)
    else:
        if s.overlay is None:
            s.error(errno.EROFS, 'nothing is created without an overlay')
        vc.prove(s.handles.used == s.was_used, 'a failed creation leaves no handle')
        s.invariant()


def unit_release(vc):
    s = Setting(vc)
    used = s.handles.used[s.h.z]
    ok = s.run('release', s.path, s.h)
    s.invariant()
    vc.prove(z3.Not(s.handles.used[s.h.z]), 'the handle is not valid any more')
    if ok:
        vc.prove(used, 'only open handles can be released')
        f = s.handles.find(s.h)[1]
        if isinstance(f, File):
            vc.prove(f.closed == 1, 'the file is closed exactly once')
            vc.prove(not s.fd_log, 'nothing else is closed')
        else:
            vc.prove([x[0] for x in s.fd_log] == ['close'] and s.fd_log[0][1] is f, 'the file is closed exactly once')
    else:
        vc.prove(z3.Not(used), 'open handles can be released')
        s.error(errno.ESTALE, 'an unknown handle is reported as such')
        vc.prove(not s.fd_log, 'nothing is closed')


def unit_read(vc):
    s = Setting(vc)
    size, offset = vc.nat('size'), vc.nat('offset')
    used = s.handles.used[s.h.z]
    before = vc.branch(used)
    ok = s.run('read', s.path, size, offset, s.h)
    vc.prove(s.handles.used == s.was_used, 'reading opens and closes nothing')
    s.invariant()
    if before:
        f = s.handles.find(s.h)[1]
        vc.prove(ok and isinstance(s.result, Bytes) and s.result.file is f, 'the bytes are those of the file of the handle')
        vc.prove(z3.And(zi(s.result.at) == offset.z, zi(s.result.size) == size.z), 'as many bytes as asked for, from the offset that was asked for')
        vc.prove(not s.union.log, 'no other file is opened')
    elif ok:
        vc.prove(len(s.union.log) == 1 and s.union.log[0][0] == 'read' and s.union.log[0][1] is s.info and s.union.log[0][2] is size and s.union.log[0][3] is offset,
                 'without a handle, the file of the path is read at the offset')
        vc.prove(s.result is s.union.file, 'the bytes are those of the file')
    else:
        s.error(errno.EIO if s.union.log else errno.ENOENT, 'what does not exist or cannot be read is reported as such')


def unit_write(vc):
    s = Setting(vc)
    data, offset = vc.val('data'), vc.nat('offset')
    vc.assume(s.handles.used[s.h.z])
    flags, f = s.handles.find(s.h)
    s.run('write', s.path, data, offset, s.h)
    s.invariant()
    vc.prove(s.handles.used[s.h.z], 'the handle stays valid')
    now = s.handles.find(s.h)[1]
    log = s.overlay.log if s.overlay else []
    if isinstance(f, File) and f.pytype is CommandFile and any(isinstance(x, tuple) for x in f.log):
        w = [x for x in f.log if isinstance(x, tuple)]
        vc.prove(len(w) == 1 and w[0][2] is data and now is f and not log, 'commands get the data as it is')
        return
    if s.kind == 'ok':
        vc.prove(s.overlay is not None and log[-1][0] == 'write' and log[-1][1] is s.path and log[-1][2] is data, 'the data is written to the overlay')
        vc.prove(zi(log[-1][3]) == offset.z, 'the data is written to the offset that was asked for')
        vc.prove(log[-1][4] is now and not isinstance(now, File), 'the data is written to the file of the handle')
        vc.prove(s.result is s.overlay.result, 'the number of bytes written is returned')
    if now is not f:
        vc.prove(isinstance(f, File) and f.closed == 1, 'the file that is not used any more is closed exactly once')
        vc.prove(now is s.overlay.fd and [x[0] for x in log].count('open') == 1 and log[0][:3] == ('open', s.path, flags), 'the file in the overlay is the one of the path, opened as asked for')
    elif isinstance(f, File):
        vc.prove(f.closed == 0, 'files that handles refer to are open')
        vc.prove(not any(isinstance(x, tuple) for x in f.log), 'files of archives are not written to')
    if s.kind == 'exc' and (s.overlay is None or (isinstance(now, File) and not log)):
        s.error(errno.EROFS, 'what is not opened for writing cannot be written')
        if s.overlay is not None and f.pytype is not CommandFile:
            vc.prove(zi(flags) % 4 == 0, 'what is opened for writing can be written')


def unit_sync(vc):
    s = Setting(vc)
    name = ('flush', 'fsync')[vc.pick(2, 'operation')]
    extra = [vc.int('datasync')] if name == 'fsync' else []
    used = vc.branch(s.handles.used[s.h.z])
    ok = s.run(name, s.path, *extra, s.h)
    vc.prove(s.handles.used == s.was_used, 'nothing is opened or closed')
    log = s.overlay.log if s.overlay else []
    f = s.handles.find(s.h)[1] if used else None
    if used and not isinstance(f, File):
        vc.prove(len(log) == 1 and log[0][0] == name and log[0][1] is s.path and log[0][-1] is f and (not extra or log[0][2] is extra[0]), 'the file of the handle is synchronised')
    else:
        vc.prove(ok and not log, 'there is nothing to synchronise for files of archives')


def unit_truncate(vc):
    s = Setting(vc)
    length = vc.nat('length')
    ok = s.run('truncate', s.path, length, s.h)
    vc.prove(s.handles.used == s.was_used, 'nothing is opened or closed')
    log = s.overlay.log if s.overlay else []
    if ok and log:
        vc.prove(len(log) == 1 and log[0][1] is s.path and log[0][2] is length, 'the file of the path is truncated to the length')
    elif ok:
        vc.prove(z3.And(z3.BoolVal(bool(s.self.fields['_enableControlInterface'])), z3.PrefixOf(z3.StringVal('/.ratarmount-control/'), s.path.z)), 'only control files ignore it')


def unit_attributes(vc):
    """getattr and readlink show what the look-up returned"""
    s = Setting(vc, overlay_=False)
    size, mtime = vc.nat('size'), SReal(z3.Real(vc.name('mtime')))
    s.info.fields.update({'size': size, 'mtime': mtime})
    if vc.choose('readlink'):
        ok = s.run('readlink', s.path)
        if ok:
            vc.prove(s.result is s.info.fields['linkname'], 'the target of the link is shown')
    else:
        ok = s.run('getattr', s.path)
        if ok:
            r = dict((k, v) for k, v in s.result.items)
            for a, b in (('st_mode', 'mode'), ('st_uid', 'uid'), ('st_gid', 'gid'), ('st_size', 'size')):
                vc.prove(r[a] is s.info.fields[b], f'{a} is that of the entry')
            vc.prove(z3.And(zi(r['st_blocks']) * 512 >= size.z, (zi(r['st_blocks']) - 1) * 512 < size.z), 'the blocks cover the size')
            vc.prove(z3.And(z3.ToReal(zi(r['st_mtime'])) <= mtime.z * 1000000000 + 1, z3.ToReal(zi(r['st_mtime'])) >= mtime.z * 1000000000 - 1), 'the time is that of the entry, in nanoseconds')
    if not ok:
        s.error(errno.ENOENT, 'what does not exist is reported as such')
    vc.prove(s.handles.used == s.was_used, 'nothing is opened or closed')


# ------------------------------------------------------------------------------------------------ runs
def nested_sources(rng, tmp):
    """a folder with files, archives and compressed files; path -> contents for the files that can be read"""
    want = {}
    folder = os.path.join(tmp, 'folder')
    os.mkdir(folder)

    def data(n):
        return rng.randbytes(n)

    def tar(depth):
        out, members = io.BytesIO(), {}
        with tarfile.open(fileobj=out, mode='w') as t:
            for i in range(rng.randrange(1, 6)):
                d = data(rng.choice((0, 1, 512, 700, 5000, 70000)))
                name = f'm{i}'
                if depth and rng.random() < 0.4:
                    d, inner = tar(depth - 1)
                    name += '.tar'
                    members.update({f'{name}/{k}': v for k, v in inner.items()})
                else:
                    members[name] = d
                info = tarfile.TarInfo(name)
                info.size = len(d)
                t.addfile(info, io.BytesIO(d))
        return out.getvalue(), members

    for i in range(rng.randrange(1, 4)):
        d = data(rng.choice((0, 1, 3000, 100000)))
        with open(os.path.join(folder, f'f{i}'), 'wb') as f:
            f.write(d)
        want[f'/f{i}'] = d
    for i in range(rng.randrange(1, 3)):
        d, members = tar(2)
        with open(os.path.join(folder, f'a{i}.tar'), 'wb') as f:
            f.write(d)
        want.update({f'/a{i}.tar/{k}': v for k, v in members.items()})
    if rng.random() < 0.5:
        d = data(50000)
        with gzip.open(os.path.join(folder, 'z.gz'), 'wb') as f:
            f.write(d)
        want['/z.gz/z'] = d
    return folder, want


class Counting:
    """counts how often the files of the mount source get closed"""

    def __init__(self, m):
        self.files, self.open = [], m.mountSource.open
        m.mountSource.open = self

    def __call__(self, info, buffering=-1):
        f = self.open(info, buffering)
        record = [0]
        close = f.close

        def counted():
            record[0] += not f.closed
            close()
        try:
            f.close = counted
        except AttributeError:
            return f
        self.files.append((f, record))
        return f


def run_handles(ctx):
    quiet()
    rng = ctx.rng
    for _ in range(ctx.budget(60, 2500)):
        if ctx.out_of_time():
            return
        tmp = ctx.tmp()
        folder, want = nested_sources(rng, tmp)
        point = os.path.join(tmp, 'point')
        os.mkdir(point)
        options = {'recursive': True, 'recursionDepth': 3, 'enableFileVersions': rng.random() < 0.5, 'indexFilePath': ':memory:', 'lazyMounting': rng.random() < 0.3}
        log = []
        with ctx.case({'files': {p: len(d) for p, d in want.items()}, 'options': options, 'log': log}) as c, FuseMount([folder], point, **options) as m:
            counting = Counting(m)
            opened, released = {}, set()
            for _i in range(rng.choice((20, 100, 300))):
                r = rng.random()
                if r < 0.25 or not opened:
                    p = rng.choice(sorted(want))
                    if rng.random() < 0.2:
                        p += rng.choice(('x', '/x', '.versions/7'))
                        log.append(('open', p))
                        got = outcome(lambda p=p: m.open(p, os.O_RDONLY))
                        c.equal(got, ('error', errno.ENOENT), 'what does not exist is reported as such', path=p)
                        c.equal(outcome(lambda p=p: m.getattr(p)), ('error', errno.ENOENT), 'what does not exist is reported as such', path=p)
                        continue
                    fh = m.open(p, os.O_RDONLY)
                    log.append(('open', p, fh))
                    c.check(isinstance(fh, int) and fh not in opened, 'the handle is not in use', handle=fh, path=p)
                    c.equal(m.getattr(p)['st_size'], len(want[p]), 'the size is that of the contents', path=p)
                    opened[fh] = p
                elif r < 0.85:
                    fh = rng.choice(sorted(opened))
                    d = want[opened[fh]]
                    at, n = rng.choice((0, 1, len(d), max(0, len(d) - 1), rng.randrange(len(d) + 1), len(d) + 5)), rng.choice((0, 1, 100, 4096, 200000))
                    log.append(('read', fh, n, at))
                    c.equal(bytes(m.read(opened[fh], n, at, fh)), d[at: at + n], 'the bytes are those at the offset of the file of the handle', handle=fh, path=opened[fh], offset=at, size=n)
                else:
                    fh = rng.choice(sorted(opened))
                    log.append(('release', fh))
                    m.release(opened.pop(fh), fh)
                    released.add(fh)
                    again = outcome(lambda fh=fh: m.release('/', fh))
                    c.equal(again[0], 'error', 'a released handle is not valid any more', handle=fh)
            for fh, p in opened.items():
                m.release(p, fh)
            c.equal(len(m.openedFiles), 0, 'no handles are left')
            c.check(all(r[0] == 1 for _f, r in counting.files), 'every file is closed exactly once', counts=[r[0] for _f, r in counting.files])
            got = overlay.walk_mount(m, c, log=log, types=False)  # lazily mounted archives become folders
            c.equal({p: e[2] for p, e in got.items() if e[0] == 'file' and p in want}, want, 'all files are listed and readable')
        shutil.rmtree(tmp)


def outcome(f):
    try:
        return 'ok', f()
    except OSError as e:
        return 'error', e.errno
    except KeyError as e:
        return 'error', repr(e)


def run_overlay_handles(ctx):
    """many handles on files that get written, created, and removed"""
    quiet()
    os.umask(0)
    for _ in range(ctx.budget(40, 2000)):
        if ctx.out_of_time():
            return
        tmp = ctx.tmp()
        w = overlay.World(tmp, ctx.rng)
        with ctx.case({'source': w.source, 'options': w.options, 'start': {p: s[0] for p, s in w.start.items()}, 'log': w.log}) as c:
            for _i in range(80):
                w.step(c, ctx.rng.choice(('create', 'open', 'open', 'read', 'read', 'read', 'write', 'write', 'release', 'truncate')))
            for h in list(w.handles):
                w.close(h)
            c.equal(len(w.m.openedFiles), 0, 'no handles are left', log=w.log)
            w.unmount()
        shutil.rmtree(tmp)


OPS = ['_add_new_handle', 'open', 'create', 'release', 'read', 'write', 'flush', 'fsync', 'truncate', 'getattr', 'readlink', 'readdir']
FN = {o: inspect.unwrap(getattr(FuseMount, o)) for o in OPS}
ORACLES = [
    Oracle('handles on archives', run_handles, list(FN.values()), '60 (2500) mounts with nested archives, up to 300 operations on many handles', unprivileged=True, quick_s=25),
    Oracle('handles with an overlay', run_overlay_handles, list(FN.values()), '40 (2000) histories of 80 operations on handles next to a real folder', unprivileged=True, quick_s=25),
]
UNITS = [
    Unit('new handles', unit_add, [FN['_add_new_handle']]),
    Unit('open', unit_open, [FN['open']]),
    Unit('create', unit_create, [FN['create']]),
    Unit('release', unit_release, [FN['release']]),
    Unit('read', unit_read, [FN['read'], FuseMount._resolve_file_handle]),
    Unit('write', unit_write, [FN['write'], FuseMount._is_write_overlay_handle]),
    Unit('flush and fsync', unit_sync, [FN['flush'], FN['fsync']]),
    Unit('truncate', unit_truncate, [FN['truncate']]),
    Unit('getattr and readlink', unit_attributes, [FN['getattr'], FN['readlink']]),
]
from checks import c17  # noqa: E402

UNITS += [u for u in c17.UNITS if u.name in ('look-up', 'listing')]
TRUSTED = ['FUSE calls operations one at a time (nothreads)', 'the layers below return the file of the entry (C16)', 'float rounding of times is not considered']
LEVEL = 'proof'
