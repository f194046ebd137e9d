"""A mount with a write overlay, driven like the kernel drives it, next to a real folder that gets the same operations.

The kernel resolves paths and links and refuses what can be refused without asking the file system; the reference folder
decides what that is.  Both sides are compared completely: names, types, permissions, owners, times, contents, targets.
"""
import errno
import io
import os
import random
import stat
import tarfile
import time

from ratarmount.fuse import fuse
from ratarmount.FuseMount import FuseMount
from ratarmount.WriteOverlay import WritableFolderMountSource

HIDDEN = WritableFolderMountSource.hiddenNames
NAMES = ['a', 'b', 'c', 'd e', "q'u", 'x%_', 'ä', '.h', 'a.tar', '*?[']


def folder_paths(root):
    """all paths below root, '' included, without following links"""
    yield ''
    for at, dirs, files in os.walk(root):
        for n in dirs + files:
            yield os.path.relpath(os.path.join(at, n), root)


def kind(mode):
    return {stat.S_IFREG: 'file', stat.S_IFDIR: 'folder', stat.S_IFLNK: 'link', stat.S_IFIFO: 'fifo'}.get(stat.S_IFMT(mode), oct(mode))


def names(entries):
    return [e if isinstance(e, str) else e[0] for e in entries if (e if isinstance(e, str) else e[0]) not in ('.', '..')]


def read_all(m, path, flags=os.O_RDONLY):
    fh = m.open(path, flags)
    try:
        parts, at = [], 0
        while True:
            part = m.read(path, 4096, at, fh)
            if not part:
                return b''.join(parts)
            parts.append(bytes(part))
            at += len(part)
    finally:
        m.release(path, fh)


def walk_mount(m, c=None, path='/', log=None, types=True):
    """path -> (kind, permissions, size, contents or target, (uid, gid), mtime in ns)"""
    out = {}
    st = m.getattr(path)
    k = kind(st['st_mode'])
    data = b''
    if k == 'file':
        data = read_all(m, path)
        if c:
            c.equal(st['st_size'], len(data), 'the size is the number of bytes that can be read', path=path)
    elif k == 'link':
        data = m.readlink(path)
    out[path] = (k, stat.S_IMODE(st['st_mode']), data, (st['st_uid'], st['st_gid']), st['st_mtime'])
    if k == 'folder':
        listed = names(m.readdir(path, 0))
        if c:
            c.equal(len(set(listed)), len(listed), 'every name is listed once', path=path, names=sorted(listed))
            for n, mode in [(e[0], e[1]) for e in m.readdir(path, 0) if types and not isinstance(e, str) and e[0] not in ('.', '..')]:
                real = kind(m.getattr(os.path.join(path, n))['st_mode'])
                c.check(kind(mode) == real or (real == 'fifo' and kind(mode) == 'file'), 'the listed type is the type', path=path, name=n, log=log)
        for n in listed:
            out.update(walk_mount(m, c, path.rstrip('/') + '/' + n, log, types))
    return out


def random_folder(rng, root, fresh, depth=0):
    for n in rng.sample(NAMES, rng.randrange(1, 5)):
        p = os.path.join(root, n)
        r = rng.random()
        if r < 0.4 and depth < 2:
            os.mkdir(p)
            random_folder(rng, p, fresh, depth + 1)
            os.chmod(p, rng.choice((0o755, 0o700, 0o777)))
        elif r < 0.5:
            os.symlink(rng.choice(('a', '../b', '/etc/none', 'd e/a')), p)
            continue
        else:
            with open(p, 'wb') as f:
                f.write(fresh())
            os.chmod(p, rng.choice((0o644, 0o600, 0o777, 0o664)))
        os.utime(p, ns=(0, rng.randrange(10 ** 9) * 10 ** 9))


def tar_of(rng, folder, target, prefix='', older=()):
    with tarfile.open(target, 'w') as t:
        def change(info):
            info.uid, info.gid = rng.choice((0, 1000, 12345)), rng.choice((0, 1000, 54321))
            info.name = prefix + info.name
            return info
        for n in older:
            t.add(os.path.join(folder, n), n, filter=change, recursive=rng.random() < 0.5)
        for n in sorted(os.listdir(folder)):
            t.add(os.path.join(folder, n), n, filter=change)


class World:
    def __init__(self, tmp, rng, source=None, versions=None, nested=False, prefix='', older=False):
        self.tmp, self.rng, self.counter = tmp, rng, 0
        self.source = source or rng.choice(('tar', 'folder', 'union', 'tar'))
        self.options = {'enableFileVersions': rng.random() < 0.6 if versions is None else versions}
        self.paths = []
        for i in range(2 if self.source == 'union' else 1):
            folder = os.path.join(tmp, f'source{i}')
            os.mkdir(folder)
            random_folder(rng, folder, self.fresh)
            if self.source == 'tar' or (self.source == 'union' and i == 0):
                tar_of(rng, folder, folder + '.tar', prefix, [n for n in os.listdir(folder) if rng.random() < 0.3] if older else ())
                self.paths.append(folder + '.tar')
            else:
                self.paths.append(folder)
        self.overlay, self.point, self.ref = (os.path.join(tmp, n) for n in ('overlay', 'point', 'reference'))
        os.mkdir(self.point)
        with FuseMount(list(self.paths), self.point, indexFilePath=':memory:', **self.options) as m:
            self.start = walk_mount(m)
        self.start_time = time.time_ns() - 10 ** 9
        self.owner, self.mtime = {}, {}
        for p, (k, perm, data, owner, mtime) in self.start.items():
            q = self.real(p)
            if k == 'folder':
                os.mkdir(q)
            elif k == 'link':
                os.symlink(data, q)
            else:
                with open(q, 'wb') as f:
                    f.write(data)
            if k != 'link':
                os.chmod(q, perm)
            self.owner[p] = owner
            if k != 'folder':
                self.mtime[p] = mtime
        self.m, self.handles, self.log = None, [], []
        self.shared = set()  # files with several names: attributes are kept per name
        self.mount()

    def fresh(self):
        self.counter += 1
        n = self.rng.choice((0, 1, 10, 3000, 10000))
        return (b'<%d>' % self.counter + random.Random(self.counter).randbytes(n))[: self.rng.choice((0, 3, 100, 20000))]

    def real(self, path):
        return os.path.join(self.ref, path.lstrip('/')) if path.strip('/') else self.ref

    def mount(self):
        self.m = FuseMount(list(self.paths), self.point, writeOverlay=self.overlay, indexFilePath=':memory:', **self.options)

    def unmount(self):
        for h in list(self.handles):
            self.close(h)
        self.m.writeOverlay.sqlConnection.close()
        self.m.mountSource.__exit__(None, None, None)
        self.m.__exit__(None, None, None)
        self.m = None

    # what exists

    def existing(self, kinds=('file', 'folder', 'link', 'fifo'), root=False):
        out = []
        for p in folder_paths(self.ref):
            if not p and not root:
                continue
            if kind(os.lstat(os.path.join(self.ref, p)).st_mode) in kinds:
                out.append('/' + p)
        return sorted(out)

    def some(self, *kinds, root=False):
        found = self.existing(kinds or ('file', 'folder', 'link', 'fifo'), root)
        return self.rng.choice(found) if found else None

    def new(self):
        """a path that does not exist in a folder that does; often one that existed before"""
        gone = [p for p in self.start if not os.path.lexists(self.real(p)) and os.path.isdir(os.path.dirname(self.real(p)))
                and not self.via_link(p)]
        if gone and self.rng.random() < 0.5:
            return self.rng.choice(sorted(gone))
        for _ in range(20):
            p = self.some('folder', root=True).rstrip('/') + '/' + self.rng.choice(NAMES)
            if not os.path.lexists(self.real(p)) and p.count('/') < 5:
                return p
        return None

    def via_link(self, path):
        parts = path.strip('/').split('/')
        return any(os.path.islink(self.real('/'.join(parts[:i]))) for i in range(1, len(parts)))

    def forget(self, path):
        for table in (self.owner, self.mtime):
            for p in [p for p in table if p == path or p.startswith(path + '/')]:
                del table[p]

    def moved(self, old, new):
        self.forget(new)
        for table in (self.owner, self.mtime):
            for p in [p for p in table if p == old or p.startswith(old + '/')]:
                table[new + p[len(old):]] = table.pop(p)
        for p in [p for p in self.shared if p == old or p.startswith(old + '/')]:
            self.shared.add(new + p[len(old):])

    def busy(self, path):
        return any(h['path'] == path or h['path'].startswith(path + '/') for h in self.handles)

    # operations: each does the same to both

    def both(self, c, name, args, mine, reference, allowed=()):
        """mine() on the mount and reference() on the folder have to agree about success; -> True if both did it"""
        self.log.append((name, *args))
        try:
            got = ('ok', mine())
        except OSError as e:
            got = ('error', e.errno)
        if got[0] == 'error' and got[1] in allowed:
            return None
        try:
            want = ('ok', reference())
        except OSError as e:
            want = ('error', e.errno)
        c.equal(got[0], want[0], f'{name} succeeds exactly when it does for a real folder', operation=(name, *args), got_error=got, expected_error=want, log=self.log)
        if got[0] == 'error':
            c.check(got[1] == want[1] or {got[1], want[1]} <= {errno.ENOTEMPTY, errno.EEXIST}, f'{name} fails like for a real folder',
                    operation=(name, *args), got=errno.errorcode.get(got[1]), expected=errno.errorcode.get(want[1]), log=self.log)
            return None
        return got

    def step(self, c, op=None):
        rng, m = self.rng, self.m
        op = op or rng.choice(('create', 'create', 'open', 'open', 'write', 'write', 'write', 'read', 'release', 'truncate', 'chmod', 'chown', 'utimens',
                               'unlink', 'unlink', 'rmdir', 'mkdir', 'mkdir', 'symlink', 'link', 'mknod', 'rename', 'rename', 'rename', 'remount', 'missing', 'remove_all'))
        if op == 'create':
            p = self.new()
            if p:
                mode = stat.S_IFREG | rng.choice((0o644, 0o600, 0o755))
                got = self.both(c, op, (p, oct(mode)), lambda: m.create(p, mode), lambda: os.open(self.real(p), os.O_RDWR | os.O_CREAT | os.O_EXCL, mode & 0o7777))
                fd = self.last_fd(self.real(p)) if got else None
                if got:
                    self.forget(p)
                    self.owner[p] = (os.getuid(), os.getgid())
                    self.add_handle(c, p, got[1], fd, os.O_RDWR)
        elif op == 'open':
            p = self.some('file')
            if p and len(self.handles) < 5:
                flags = rng.choice((os.O_RDONLY, os.O_RDWR, os.O_WRONLY))
                got = self.both(c, op, (p, flags), lambda: m.open(p, flags), lambda: None)
                if got:
                    self.add_handle(c, p, got[1], os.open(self.real(p), flags), flags)
                    if flags != os.O_RDONLY and rng.random() < 0.2:  # what the kernel does for O_TRUNC
                        self.log.append(('truncate', p, 0))
                        m.truncate(p, 0)
                        os.truncate(self.real(p), 0)
                        self.written(p)
        elif op in ('write', 'read', 'release') and self.handles:
            getattr(self, op)(c, rng.choice(self.handles))
        elif op == 'truncate':
            p = self.some('file')
            if p:
                n = rng.choice((0, 1, 5, os.path.getsize(self.real(p)), os.path.getsize(self.real(p)) + 10))
                if self.both(c, op, (p, n), lambda: m.truncate(p, n), lambda: os.truncate(self.real(p), n)):
                    self.written(p)
        elif op == 'chmod':
            p = self.some('file', 'folder', 'fifo')
            if p and p not in self.shared:
                mode = stat.S_IFMT(os.lstat(self.real(p)).st_mode) | rng.choice((0o700, 0o755, 0o644 | 0o700, 0o1777))
                self.both(c, op, (p, oct(mode)), lambda: m.chmod(p, mode), lambda: os.chmod(self.real(p), mode & 0o7777))
        elif op == 'chown':
            p = self.some()
            if p and p not in self.shared:
                uid, gid = rng.choice((-1, 5, 1000)), rng.choice((-1, 7, 1000))
                if self.both(c, op, (p, uid, gid), lambda: m.chown(p, uid, gid), lambda: None):
                    old = self.owner.get(p)
                    if old:
                        self.owner[p] = (old[0] if uid == -1 else uid, old[1] if gid == -1 else gid)
        elif op == 'utimens':
            p = self.some('file', 'link', 'fifo')
            if p and p not in self.shared:
                t = rng.randrange(10 ** 9) * 10 ** 9
                times = rng.choice(((t, t), (5 * 10 ** 9, t), None))
                if self.both(c, op, (p, times), lambda: m.utimens(p, times), lambda: os.utime(self.real(p), ns=(t, t), follow_symlinks=False)):
                    self.mtime.pop(p, None)
                    if times:
                        self.mtime[p] = t
        elif op == 'unlink':
            p = self.some('file', 'link', 'fifo')
            if p and not self.busy(p) and self.both(c, op, (p,), lambda: m.unlink(p), lambda: os.unlink(self.real(p))):
                self.forget(p)
        elif op == 'rmdir':
            p = self.some('folder')
            if p and self.both(c, op, (p,), lambda: m.rmdir(p), lambda: os.rmdir(self.real(p))):
                self.forget(p)
        elif op == 'remove_all':
            top = self.some('folder')
            if top and not self.busy(top):
                inside = [p for p in self.existing() if p.startswith(top + '/')] + [top]
                for p in sorted(inside, reverse=True):
                    if os.path.isdir(self.real(p)) and not os.path.islink(self.real(p)):
                        self.both(c, 'rmdir', (p,), lambda p=p: m.rmdir(p), lambda p=p: os.rmdir(self.real(p)))
                    else:
                        self.both(c, 'unlink', (p,), lambda p=p: m.unlink(p), lambda p=p: os.unlink(self.real(p)))
                self.forget(top)
        elif op == 'mkdir':
            p = self.new()
            if p:
                mode = rng.choice((0o755, 0o700, 0o777))
                if self.both(c, op, (p, oct(mode)), lambda: m.mkdir(p, mode), lambda: os.mkdir(self.real(p), mode)):
                    self.forget(p)
                    self.owner[p] = (os.getuid(), os.getgid())
        elif op == 'symlink':
            p = self.new()
            if p:
                target = rng.choice(('a', '../c', '/nothing/here', '..', 'ä'))
                if self.both(c, op, (p, target), lambda: m.symlink(p, target), lambda: os.symlink(target, self.real(p))):
                    self.forget(p)
                    self.owner[p] = (os.getuid(), os.getgid())
        elif op == 'link':
            p, old = self.new(), self.some('file')
            if p and old and not any(h['path'] == old for h in self.handles):
                if self.both(c, op, (p, old), lambda: m.link(p, old), lambda: os.link(self.real(old), self.real(p)), allowed=(errno.EXDEV,)):
                    self.forget(p)
                    self.shared |= {p, old}
                    if old in self.owner:
                        self.owner[p] = self.owner[old]
        elif op == 'mknod':
            p = self.new()
            if p:
                mode = rng.choice((stat.S_IFIFO, stat.S_IFREG)) | 0o644
                if self.both(c, op, (p, oct(mode)), lambda: m.mknod(p, mode, 0), lambda: os.mknod(self.real(p), mode)):
                    self.forget(p)
                    self.owner[p] = (os.getuid(), os.getgid())
        elif op == 'rename':
            old = self.some()
            new = self.new() if rng.random() < 0.6 else self.some()
            if old and new and not self.busy(old) and not self.busy(new) and not new.startswith(old + '/'):
                a, b = os.lstat(self.real(old)).st_mode, os.path.lexists(self.real(new)) and os.lstat(self.real(new)).st_mode
                if b and stat.S_ISDIR(a) != stat.S_ISDIR(b):
                    return  # refused by the kernel
                if b and old.startswith(new + '/'):
                    return
                if b and os.path.samestat(os.lstat(self.real(old)), os.lstat(self.real(new))) and old != new:
                    return  # nothing happens to two names of one file
                allowed = (errno.EXDEV,) if stat.S_ISDIR(a) else ()
                if stat.S_ISFIFO(a) and False:
                    return
                if self.both(c, op, (old, new), lambda: m.rename(old, new), lambda: os.rename(self.real(old), self.real(new)), allowed) and old != new:
                    self.moved(old, new)
        elif op == 'remount':
            self.log.append(('remount',))
            self.unmount()
            self.mount()
        elif op == 'missing':
            p = self.new()
            if p:
                self.log.append(('missing', p))
                for what in (lambda: m.getattr(p), lambda: m.open(p, rng.choice((0, os.O_RDWR))), lambda: m.readlink(p), lambda: m.unlink(p), lambda: m.rmdir(p),
                             lambda: m.rename(p, '/b'), lambda: m.chmod(p, 0o600), lambda: m.chown(p, 3, 3), lambda: m.utimens(p, (1, 1)), lambda: m.listxattr(p),
                             lambda: m.link('/a', p)):
                    try:
                        what()
                    except OSError as e:
                        c.equal(e.errno, errno.ENOENT, 'a path that does not exist is reported as such', path=p, log=self.log)
                    else:
                        c.check(False, 'an operation on a path that does not exist fails', path=p, log=self.log)

    def last_fd(self, path):
        for fd in range(200):
            try:
                if os.readlink(f'/proc/self/fd/{fd}') == os.path.realpath(path):
                    return fd
            except OSError:
                pass
        raise AssertionError(path)

    def add_handle(self, c, path, fh, fd, flags):
        c.check(all(h['fh'] != fh for h in self.handles), 'a handle that is in use is not given out again', path=path, log=self.log)
        self.handles.append({'path': path, 'fh': fh, 'fd': fd, 'flags': flags, 'stale': False})

    def written(self, path, by=None):
        self.mtime[path] = 'now'
        for h in self.handles:
            same = h['path'] == path
            if same and h is not by:
                h['stale'] = True  # it may still show what was there when it was opened

    def write(self, c, h):
        if h['flags'] == os.O_RDONLY:
            return
        data, at = self.fresh() or b'x', self.rng.choice((0, 1, 7, os.fstat(h['fd']).st_size))
        self.log.append(('write', h['path'], h['fh'], at, len(data)))
        c.equal(self.m.write(h['path'], data, at, h['fh']), len(data), 'everything is written', log=self.log)
        os.pwrite(h['fd'], data, at)
        self.written(h['path'], h)
        h['stale'] = False
        if self.rng.random() < 0.3:
            self.m.flush(h['path'], h['fh'])
        if self.rng.random() < 0.3:
            self.m.fsync(h['path'], self.rng.choice((0, 1)), h['fh'])

    def read(self, c, h):
        if h['flags'] == os.O_WRONLY or h['stale']:
            return
        at, n = self.rng.choice((0, 1, 10, 5000)), self.rng.choice((0, 1, 100, 50000))
        self.log.append(('read', h['path'], h['fh'], at, n))
        c.equal(bytes(self.m.read(h['path'], n, at, h['fh'])), os.pread(h['fd'], n, at), 'reading a handle returns the bytes at the offset', log=self.log)

    def close(self, h):
        self.log.append(('release', h['path'], h['fh']))
        self.m.release(h['path'], h['fh'])
        os.close(h['fd'])
        self.handles.remove(h)

    def release(self, c, h):
        self.close(h)
        for what in (lambda: self.m.release(h['path'], h['fh']),):
            try:
                what()
            except OSError:
                continue
            c.check(False, 'a released handle is not valid any more', handle=h['fh'], log=self.log)

    # comparison

    def expected(self):
        out = {}
        for p in self.existing(root=True):
            st = os.lstat(self.real(p))
            k = kind(st.st_mode)
            data = b''
            if k == 'file':
                with open(self.real(p), 'rb') as f:
                    data = f.read()
            elif k == 'link':
                data = os.readlink(self.real(p))
            out[p if p != '/' else '/'] = (k, stat.S_IMODE(st.st_mode), data)
        return out

    def compare(self, c, m=None, attributes=True):
        got, want = walk_mount(m or self.m, c, log=self.log), self.expected()
        c.equal(sorted(got), sorted(want), 'exactly the visible entries are shown', missing=sorted(set(want) - set(got)), extra=sorted(set(got) - set(want)), log=self.log)
        for p, (k, perm, data) in want.items():
            g = got[p]
            c.equal((g[0], g[2]), (k, data), 'type and contents are the latest written ones', path=p, log=self.log)
            if not attributes or p == '/':
                continue
            if k != 'link':
                c.equal(oct(g[1]), oct(perm), 'permissions are the latest ones', path=p, log=self.log)
            if p in self.owner and p not in self.shared:
                c.equal(g[3], self.owner[p], 'the owner is the latest one', path=p, log=self.log)
            if self.mtime.get(p) == 'now' and p not in self.shared:
                c.check(g[4] >= self.start_time, 'the modification time of something written is recent', path=p, start=self.start_time, got=g[4], log=self.log)
            elif p in self.mtime and p not in self.shared and k != 'folder':
                c.check(abs(g[4] - self.mtime[p]) < 1000, 'the modification time is the latest one', path=p, expected=self.mtime[p], got=g[4], log=self.log)

    def sources_state(self):
        out = {}
        for s in self.paths:
            for p in ([s] if not os.path.isdir(s) else [os.path.join(s, q) if q else s for q in folder_paths(s)]):
                st = os.lstat(p)
                data = None
                if stat.S_ISREG(st.st_mode):
                    with open(p, 'rb') as f:
                        data = f.read()
                elif stat.S_ISLNK(st.st_mode):
                    data = os.readlink(p)
                out[p] = (st.st_mode, st.st_uid, st.st_gid, st.st_mtime_ns, st.st_size, data)
        return out
