"""The write overlay as contracts: a path is an arbitrary key; per key, whether the overlay folder has it, whether the other mount
sources have it, and what its row in the metadata database says.  What the user sees is defined from these three."""
import contextlib
import os
import re
import shutil
import stat
import time
import traceback

import z3

from pyvc.interp import Interp
from pyvc.ops import mk_bool, mk_int
from pyvc.values import Model, Obj, PyRaise, SBool, SDict, SInt, SList, SReal, Unsupported, zi
from ratarmount.WriteOverlay import WritableFolderMountSource as W
from ratarmount.fuse import fuse
from ratarmountcore.mountsource import FileInfo

K = z3.DeclareSort('Path')
I, B = z3.IntSort(), z3.BoolSort()
PARENT = z3.Function('parent', K, K)
INSIDE = z3.Function('inside', K, K, B)  # the first is strictly inside of the second
FOLDER_OF, NAME_OF = z3.Function('folder_of', K, K), z3.Function('name_of', K, I)
CONTROL = z3.Function('belongs_to_the_metadata_database', K, B)
ATTRS = ('mtime', 'mode', 'uid', 'gid')
WM = 'ratarmount.WriteOverlay:WritableFolderMountSource.'
TIME = z3.Function('stored_time', z3.RealSort(), I)  # SQLite keeps a double as it is
FILE, FOLDER, LINK, OTHER, DEVICE = range(5)


class Text(Model):
    """concatenated text whose parts are kept apart"""

    def __init__(self, parts):
        self.parts = []
        for p in parts:
            if isinstance(p, Text):
                self.parts += p.parts
            elif isinstance(p, str) and self.parts and isinstance(self.parts[-1], str):
                self.parts[-1] += p
            elif not (isinstance(p, str) and p == ''):
                self.parts.append(p)

    def add(self, vc, other):
        return Text([self, other])

    def radd(self, vc, other):
        return Text([other, self])

    def len(self, vc):
        return TextLen(self)


class TextLen(Model):
    def __init__(self, text, extra=0):
        self.text, self.extra = text, extra

    def add(self, vc, other):
        return TextLen(self.text, self.extra + other)


class Path(Text):
    def __init__(self, z):
        self.z = z
        self.parts = [self]

    def eq(self, vc, other):
        if isinstance(other, Path):
            return mk_bool(self.z == other.z)
        raise Unsupported('comparison of a path with something else')

    def m_lstrip(self, vc, chars=None):
        raise Unsupported('path text')

    m_rstrip = m_strip = m_startswith = m_split = m_lstrip


class Plain(Text):
    """text that only gets passed on"""


class Folder(Text):
    """first part of _split_path"""

    def __init__(self, p):
        self.p, self.parts = p, [self]

    def eq(self, vc, other):
        return mk_bool(FOLDER_OF(self.p.z) == FOLDER_OF(other.p.z))


class Name(Text):
    def __init__(self, p):
        self.p, self.parts = p, [self]

    def eq(self, vc, other):
        return mk_bool(NAME_OF(self.p.z) == NAME_OF(other.p.z))


class Split(Model):
    """result of _split_path: behaves like the tuple (folder, name)"""

    def __init__(self, p):
        self.items = (Folder(p), Name(p))
        self.p = p

    def eq(self, vc, other):
        return mk_bool(self.p.z == other.p.z)


class Real(Model):
    """path of the entry in the overlay folder"""

    def __init__(self, p):
        self.p = p


def key_of(parts):
    """the path that a folder and a name belong to"""
    if len(parts) == 2 and isinstance(parts[0], Folder) and isinstance(parts[1], Name):
        if parts[0].p.z.eq(parts[1].p.z):
            return parts[0].p
    return None


class Row(Model):
    def __init__(self, st, p):
        self.st, self.p = st, p
        self.snap = {a: (st.has[a], st.val[a]) for a in ATTRS}

    def getitem(self, vc, name):
        if name in ATTRS:
            has, val = self.snap[name]
            if vc.branch(z3.Select(has, self.p.z)):
                return mk_int(z3.Select(val, self.p.z))
            return None
        raise Unsupported(f'column {name}')

    def truth(self, vc):
        return True


class Info(Model):
    pass


class Cursor(Model):
    def __init__(self, row):
        self.row = row

    def m_fetchone(self, vc):
        return self.row


class FS:
    """the state; all arrays over paths"""

    def __init__(self, vc, failing=True, zone=None):
        self.vc, self.failing = vc, failing
        arr = lambda n, s: z3.Const(vc.name(n), z3.ArraySort(K, s))  # noqa: E731
        self.O, self.A, self.R, self.D = arr('in_overlay', B), arr('elsewhere', B), arr('row', B), arr('deleted', B)
        self.has = {a: arr('row_has_' + a, B) for a in ATTRS}
        self.val = {a: arr('row_' + a, I) for a in ATTRS}
        self.oattr = {a: arr('overlay_' + a, I) for a in ATTRS}
        self.aattr = {a: arr('other_' + a, I) for a in ATTRS}
        self.OT, self.AT = arr('overlay_type', I), arr('other_type', I)
        self.OC, self.AC = arr('overlay_content', I), arr('other_content', I)
        self.tracked, self.log = [], []
        self.O0 = self.O
        self.failed = []
        self.position, self.written, self.synced, self.handle_path = {}, [], [], None
        self.zone = zone

    def path(self, name):
        p = Path(z3.Const(self.vc.name(name), K))
        self.track(p)
        return p

    def track(self, p):
        self.tracked.append(p)
        k = p.z
        self.vc.assume(z3.And(0 <= self.OT[k], self.OT[k] < 5, 0 <= self.AT[k], self.AT[k] < 5))
        self.vc.assume(z3.Not(INSIDE(k, k)))
        self.vc.assume(self.invariant(k))
        for q in self.tracked[:-1]:
            for x, y in ((k, q.z), (q.z, k)):
                self.vc.assume(z3.Implies(self.same_file(x, y), z3.And(self.OT[x] != FOLDER, self.OT[x] == self.OT[y], self.OC[x] == self.OC[y], *(self.oattr[a][x] == self.oattr[a][y] for a in ATTRS))))
            self.vc.assume((k == q.z) == z3.And(FOLDER_OF(k) == FOLDER_OF(q.z), NAME_OF(k) == NAME_OF(q.z)))
            self.vc.assume(z3.And(z3.Implies(INSIDE(k, q.z), z3.And(k != q.z, z3.Not(INSIDE(q.z, k)))), z3.Implies(INSIDE(q.z, k), z3.Not(INSIDE(k, q.z)))))

    def snapshot(self):
        o = object.__new__(FS)
        o.__dict__.update({k: (dict(v) if isinstance(v, dict) else v) for k, v in self.__dict__.items()})
        return o

    def same_file(self, a, b):
        """both are names of the same file, from the beginning on"""
        return z3.And(self.O[a], self.O[b], self.O0[a], self.O0[b], a != b, z3.If(a == b, True, SAME_FILE(a, b)))

    # what the user sees

    def exists(self, k):
        return z3.Or(self.O[k], self.A[k])

    def deleted(self, k):
        return z3.And(self.R[k], self.D[k])

    def visible(self, k):
        return z3.And(self.exists(k), z3.Not(self.deleted(k)), z3.Not(CONTROL(k)))

    def type(self, k):
        return z3.If(self.O[k], self.OT[k], self.AT[k])

    def content(self, k):
        return z3.If(self.O[k], self.OC[k], self.AC[k])

    def below(self, k, a):
        return z3.If(self.O[k], self.oattr[a][k], self.aattr[a][k])

    def shown(self, k, a):
        return z3.If(z3.And(self.R[k], self.has[a][k]), self.val[a][k], self.below(k, a))

    def invariant(self, k):
        """a deleted entry is not in the overlay, and there is something to hide; metadata is only there for what exists, and complete
        for what is not in the overlay"""
        return z3.And(z3.Implies(self.R[k], self.exists(k)),
                      z3.Implies(self.deleted(k), z3.And(self.A[k], z3.Not(self.O[k]))),
                      z3.Implies(z3.And(self.R[k], z3.Not(self.D[k]), z3.Not(self.O[k])), z3.And(*[self.has[a][k] for a in ATTRS])))

    def same(self, other, k, but=()):
        """everything the user sees at k is as in another state"""
        v = self.visible(k)
        conds = [v == other.visible(k)]
        if 'type' not in but:
            conds.append(self.type(k) == other.type(k))
        if 'content' not in but:
            conds.append(z3.Implies(has_content(self.type(k)), self.content(k) == other.content(k)))
        conds += [z3.Implies(v, self.shown(k, a) == other.shown(k, a)) for a in ATTRS if a not in but]
        return z3.And(conds[0], z3.Implies(v, z3.And(conds[1:])) if conds[1:] else True)

    # changes

    def set(self, name, k, v):
        setattr(self, name, z3.Store(getattr(self, name), k, v))

    def may_fail(self, what):
        if self.failing and not self.failed and self.vc.choose(f'{what} fails'):
            self.failed.append(what)
            raise PyRaise(OSError, (what,))

    def real(self, what, x):
        self.vc.prove(isinstance(x, Real), f'{what} only touches the overlay folder')
        self.vc.prove(z3.Not(CONTROL(x.p.z)), f'{what} does not touch the metadata database')
        self.log.append((what, x.p))
        return x.p.z

    def put(self, k, type_, content, attrs=None):
        """a new entry in the overlay folder"""
        vc = self.vc
        self.set('O', k, True)
        self.set('OT', k, type_)
        self.set('OC', k, content)
        for a in ATTRS:
            self.oattr[a] = z3.Store(self.oattr[a], k, attrs[a] if attrs and a in attrs else z3.Int(vc.name('some_' + a)))

    def models(self):
        vc = self.vc

        def lexists(vc, r):
            if isinstance(r, Real):
                return mk_bool(self.O[r.p.z])
            raise Unsupported('existence of something else')

        def exists(vc, r):
            if isinstance(r, Real):
                k = r.p.z  # a link that leads nowhere does not exist
                return mk_bool(z3.And(self.O[k], z3.Or(self.OT[k] != LINK, z3.Bool(vc.name('link_target_exists')))))
            raise Unsupported('existence of something else')

        def is_type(t):
            def f(vc, r):
                return mk_bool(z3.And(self.O[r.p.z], self.OT[r.p.z] == t))
            return f

        def mkdir(vc, r, mode=None):
            k = self.real('mkdir', r)
            if vc.branch(self.O[k]):
                raise PyRaise(FileExistsError, ())
            self.may_fail('mkdir')
            self.put(k, FOLDER, z3.IntVal(0))
            self.created_mode = mode

        def symlink(vc, target, r):
            k = self.real('symlink', r)
            if vc.branch(self.O[k]):
                raise PyRaise(FileExistsError, ())
            self.may_fail('symlink')
            self.put(k, LINK, zi(target))

        def link(vc, r, s):
            k, l = self.real('link', s), self.real('link', r)
            if vc.branch(z3.Or(self.O[k], z3.Not(self.O[l]))):
                raise PyRaise(OSError, ())
            self.may_fail('link')
            self.put(k, self.OT[l], self.OC[l], {a: self.oattr[a][l] for a in ATTRS})

        def mkfifo(vc, r, mode=None):
            mknod(vc, r, mode)

        def mknod(vc, r, mode=None, dev=None):
            k = self.real('mknod', r)
            if vc.branch(self.O[k]):
                raise PyRaise(FileExistsError, ())
            self.may_fail('mknod')
            self.put(k, OTHER, z3.IntVal(0))
            self.created_mode = mode

        def unlink(vc, r):
            k = self.real('unlink', r)
            if vc.branch(z3.Or(z3.Not(self.O[k]), self.OT[k] == FOLDER)):
                raise PyRaise(OSError, ())
            self.may_fail('unlink')
            self.set('O', k, False)

        def rmdir(vc, r):
            k = self.real('rmdir', r)
            if vc.branch(z3.Or(z3.Not(self.O[k]), self.OT[k] != FOLDER)):
                raise PyRaise(OSError, ())
            self.may_fail('rmdir')
            self.set('O', k, False)

        def truncate(vc, r, length):
            k = self.real('truncate', r)
            vc.prove(self.OT[k] != LINK, 'truncate does not follow a link')
            if vc.branch(z3.Not(self.O[k])):
                raise PyRaise(FileNotFoundError, ())
            self.may_fail('truncate')
            self.set('OC', k, TRUNCATED(self.OC[k], zi(length)))
            self.oattr['mtime'] = z3.Store(self.oattr['mtime'], k, z3.Int(vc.name('now')))

        def os_open(vc, r, flags, mode=0o777):
            k = self.real('open', r)
            follows = z3.And(self.O[k], self.OT[k] == LINK)
            if vc.branch(follows):
                raise PyRaise(OSError, ())  # the kernel has resolved links before
            self.may_fail('open')
            if isinstance(flags, int) and flags & os.O_CREAT:
                vc.prove(isinstance(flags, int), 'flags')
                if vc.branch(z3.Not(self.O[k])):
                    self.put(k, FILE, z3.IntVal(0))
                    self.created_mode = mode
                elif flags & os.O_TRUNC:
                    self.set('OC', k, z3.IntVal(0))
            elif vc.branch(z3.Not(self.O[k])):
                raise PyRaise(FileNotFoundError, ())
            self.opened = (k, flags)
            return vc.int('fd')

        def time_now(vc):
            self.now = z3.Real(vc.name('now'))
            return SReal(self.now)

        def lseek(vc, fd, offset, whence=0):
            self.may_fail('seek')
            if whence != 0:
                raise Unsupported('relative seek')
            self.position[fd] = offset
            return offset

        def os_write(vc, fd, data):
            self.may_fail('write')
            at = self.position.pop(fd, None)
            self.written.append((fd, at, data))
            k = self.handle_path
            self.oattr['mtime'] = z3.Store(self.oattr['mtime'], k, z3.Int(vc.name('now')))
            n = vc.nat('written')
            return n

        def pwrite(vc, fd, data, offset):
            self.may_fail('write')
            self.written.append((fd, offset, data))
            self.oattr['mtime'] = z3.Store(self.oattr['mtime'], self.handle_path, z3.Int(vc.name('now')))
            return vc.nat('written')

        def sync(vc, fd):
            self.may_fail('sync')
            self.synced.append(fd)
            return None

        def builtin_open(vc, r, mode='r', **kwargs):
            k = self.real('open', r)
            if 'w' not in mode:
                raise Unsupported('open for reading')
            vc.prove(z3.Not(z3.And(self.O[k], self.OT[k] == LINK)), 'writing does not follow a link')
            self.may_fail('open')
            if vc.branch(z3.Not(self.O[k])):
                self.put(k, FILE, z3.IntVal(0))
            else:
                self.set('OC', k, z3.IntVal(0))
            return Target(self, k)

        def copyfileobj(vc, source, target, length=0):
            st = self
            if not (isinstance(source, Source) and isinstance(target, Target)):
                raise Unsupported('copy of something else')
            if st.failing and not st.failed and vc.choose('copying fails'):
                st.failed.append('copying')
                st.set('OC', target.k, z3.Int(vc.name('incomplete')))
                raise PyRaise(OSError, ())
            st.set('OC', target.k, source.content)

        def rename(vc, r, s):
            a, b = self.real('rename', r), self.real('rename', s)
            if vc.branch(z3.Not(self.O[a])):
                raise PyRaise(FileNotFoundError, ())
            if vc.branch(z3.And(self.O[b], (self.OT[a] == FOLDER) != (self.OT[b] == FOLDER))):
                raise PyRaise(OSError, ())
            self.may_fail('rename')
            if vc.branch(self.same_file(a, b)):
                return  # POSIX: nothing happens to two names of one file
            before = self.snapshot()
            self.put(b, before.OT[a], before.OC[a], {x: before.oattr[x][a] for x in ATTRS})
            self.set('O', a, False)
            if self.zone:  # what is inside of a folder goes with it
                q0, q = self.zone
                if vc.branch(before.OT[a] == FOLDER):
                    self.set('O', q.z, before.O[q0.z])
                    self.set('OT', q.z, before.OT[q0.z])
                    self.set('OC', q.z, before.OC[q0.z])
                    for x in ATTRS:
                        self.oattr[x] = z3.Store(self.oattr[x], q.z, before.oattr[x][q0.z])
                    self.set('O', q0.z, False)

        def change_attr(name):
            def f(vc, r, *args, **kwargs):
                k = self.real(name, r)
                if vc.branch(z3.Not(self.O[k])):
                    raise PyRaise(FileNotFoundError, ())
                if kwargs.get('follow_symlinks', True):
                    vc.prove(self.OT[k] != LINK, f'{name} does not follow a link')
                self.may_fail(name)
                for a in {'chmod': ('mode',), 'chown': ('uid', 'gid'), 'utime': ('mtime',)}[name]:
                    self.oattr[a] = z3.Store(self.oattr[a], k, z3.Int(vc.name('new_' + a)))
            return f

        def lstat(vc, r):
            if vc.branch(z3.Not(self.O[r.p.z])):
                raise PyRaise(FileNotFoundError, ())
            return r

        m = {os.lstat: lstat, os.path.samestat: lambda vc, r, s: mk_bool(self.same_file(r.p.z, s.p.z)), os.path.lexists: lexists, os.path.exists: exists, os.path.isdir: is_type(FOLDER), os.path.islink: is_type(LINK), os.path.isfile: is_type(FILE),
             os.mkdir: mkdir, os.symlink: symlink, os.link: link, os.mknod: mknod, os.mkfifo: mkfifo, os.unlink: unlink, os.remove: unlink, os.rmdir: rmdir,
             os.lseek: lseek, os.write: os_write, os.pwrite: pwrite, os.fsync: sync, os.fdatasync: sync,
             os.truncate: truncate, os.open: os_open, open: builtin_open, shutil.copyfileobj: copyfileobj, os.rename: rename, os.replace: rename,
             os.chmod: change_attr('chmod'), os.chown: change_attr('chown'), os.utime: change_attr('utime'),
             traceback.print_exc: lambda vc, *a, **k: None, print: lambda vc, *a, **k: None, time.time: time_now,
             ('join', '/'): lambda vc, x: Text(_join(x)), stat.S_ISDIR: is_mode(FOLDER), stat.S_ISLNK: is_mode(LINK), stat.S_ISREG: is_mode(FILE), stat.S_ISFIFO: is_mode(OTHER), stat.S_ISCHR: is_mode(DEVICE), stat.S_ISBLK: is_mode(-1), stat.S_ISSOCK: is_mode(-1),
             stat.S_IFMT: lambda vc, x: x}
        return m

    # the mount source

    def source(self):
        return Mount(self)

    # SQL

    def execute(self, vc, text, params=()):
        if not isinstance(text, str):
            raise Unsupported('computed SQL statement')
        t = re.sub(r'\s+', ' ', re.sub(r'/\*.*?\*/', ' ', text).replace('"', '').replace('`', '')).strip().rstrip(';').strip()
        t = t.replace('(?)', '?').replace('==', '=').replace(' ,', ',').replace(', ', ',').replace('( ', '(').replace(' )', ')')
        params = list(params.items if isinstance(params, (SList, Split)) else params)
        m = re.fullmatch(r'INSERT OR REPLACE INTO files ?(\(([\w,]+)\))? ?VALUES ?\(([?,]+)\)', t, re.I)
        if m:
            cols = m[2].split(',') if m[2] else ['path', 'name', *ATTRS, 'deleted']
            if m[3] != ','.join('?' * len(cols)) or len(params) != len(cols):
                raise Unsupported('SQL parameters')
            self.insert(dict(zip(cols, params)))
            return Cursor(None)
        m = re.fullmatch(r'INSERT OR REPLACE INTO files ?\(([\w,]+)\) ?SELECT ([\w,?]+) FROM files WHERE (.*)', t, re.I)
        if m:
            cols, what = m[1].split(','), m[2].split(',')
            new, rest = params[:2], params[2:]
            if cols[:2] != ['path', 'name'] or what[:2] != ['?', '?'] or cols[2:] != what[2:]:
                raise Unsupported('SQL ' + t)
            k, n = key_of(new), self.where(m[3], rest)
            kk, nn = self.need(k), self.need(n[0])
            if vc.branch(self.R[nn]):
                self.set('R', kk, True)
                for a in ATTRS:
                    self.has[a] = z3.Store(self.has[a], kk, self.has[a][nn] if a in cols else z3.BoolVal(False))
                    self.val[a] = z3.Store(self.val[a], kk, self.val[a][nn])
                self.set('D', kk, self.D[nn] if 'deleted' in cols else z3.BoolVal(False))
            return Cursor(None)
        m = re.fullmatch(r'DELETE FROM files WHERE (.*)', t, re.I)
        if m:
            p, extra = self.where(m[1], params)
            k = self.need(p)
            self.set('R', k, z3.And(self.R[k], z3.Not(self.D[k])) if extra else z3.BoolVal(False))
            return Cursor(None)
        m = re.fullmatch(r'SELECT COUNT\(\*\) ?> ?0 FROM files WHERE (.*)', t, re.I)
        if m:
            p, extra = self.where(m[1], params)
            k = self.need(p)
            return Cursor(SList(items=[mk_bool(self.deleted(k) if extra else self.R[k])], mutable=False))
        m = re.fullmatch(r'SELECT \* FROM files WHERE (.*)', t, re.I)
        if m:
            p, extra = self.where(m[1], params)
            k = self.need(p)
            if extra:
                raise Unsupported('SQL ' + t)
            return Cursor(Row(self, p) if vc.branch(self.R[k]) else None)
        m = re.fullmatch(r'UPDATE files SET path = \?,name = \? WHERE (.*)', t, re.I)
        if m:
            a, b = self.need(self.where(m[1], params[2:])[0]), self.need(key_of(params[:2]))
            if vc.branch(self.R[a]):
                if vc.branch(z3.And(self.R[b], a != b)):
                    raise PyRaise(RuntimeError, ('the row exists',))
                self.move(a, b)
            return Cursor(None)
        m = re.fullmatch(r'UPDATE files SET ([\w=?, ]+) WHERE (.*)', t, re.I)
        if m:
            sets = [s.split('=') for s in m[1].split(',')]
            n = sum(s[1].strip() == '?' for s in sets)
            present = re.search(r' and (\w+) is not null$', m[2], re.I)
            p, extra = self.where(m[2][:present.start()] if present else m[2], params[n:])
            k = self.need(p)
            if extra or (present and present[1] not in ATTRS):
                raise Unsupported('SQL ' + t)
            if vc.branch(z3.And(self.R[k], self.has[present[1]][k]) if present else self.R[k]):
                values = iter(params[:n])
                if any(not re.fullmatch(r'\?|NULL|\d+', s[1].strip(), re.I) for s in sets):
                    raise Unsupported('SQL ' + t)
                for name, v in sets:
                    self.column(k, name.strip(), next(values) if v.strip() == '?' else int(v) if v.strip().isdigit() else None)
            return Cursor(None)
        m = re.fullmatch(r"UPDATE OR REPLACE files SET path = \? \|\| substr\(path,\?\) WHERE path = \? OR substr\(path,1,\?\) = \?", t, re.I)
        if m and self.zone:
            new, l1, old, l2, old_slash = params
            n, o = key_of_text(new), key_of_text(old)
            self.vc.prove(n is not None and o is not None, 'the metadata inside a renamed folder is moved from and to the right folder')
            self.vc.prove(z3.And(n.z == self.args[1].z, o.z == self.args[0].z), 'the metadata inside a renamed folder is moved from and to the right folder')
            for l in (l1, l2):
                self.vc.prove(isinstance(l, TextLen) and l.extra == 1 and key_of_text(l.text) is not None and key_of_text(l.text).z.eq(o.z), 'the length is that of the old path and a slash')
            self.vc.prove(key_of_text(old_slash, '/') is not None and key_of_text(old_slash, '/').z.eq(o.z), 'the prefix is the old path and a slash')
            q0, q = self.zone
            if self.vc.branch(self.R[q0.z]):
                self.move(q0.z, q.z)
            return Cursor(None)
        raise Unsupported('SQL ' + t)

    def need(self, p):
        if p is None:
            raise Unsupported('SQL for something else than one path')
        return p.z

    def where(self, cond, params):
        c = cond.replace('(', '').replace(')', '').strip().lower()
        c = re.sub(r'\s+', ' ', c)
        for shape, extra in (('path,name = ?,?', False), ('path = ? and name = ?', False), ('path = ? and name = ? and deleted = 1', True)):
            if c == shape:
                return key_of(params), extra
        raise Unsupported('SQL condition ' + cond)

    def column(self, k, name, v):
        if name in ATTRS:
            self.has[name] = z3.Store(self.has[name], k, z3.BoolVal(v is not None))
            if v is not None:
                self.val[name] = z3.Store(self.val[name], k, TIME(v.z) if isinstance(v, SReal) else zi(v))
        elif name == 'deleted':
            self.set('D', k, z3.BoolVal(bool(v)))
        else:
            raise Unsupported('SQL column ' + name)

    def insert(self, cols):
        k = self.need(key_of([cols.get('path'), cols.get('name')]))
        self.set('R', k, True)
        for a in ATTRS:
            self.column(k, a, cols.get(a))
        self.column(k, 'deleted', cols.get('deleted'))

    def move(self, a, b):
        for n in ('R', 'D'):
            self.set(n, b, getattr(self, n)[a])
        for x in ATTRS:
            self.has[x] = z3.Store(self.has[x], b, self.has[x][a])
            self.val[x] = z3.Store(self.val[x], b, self.val[x][a])
        self.set('R', a, z3.If(a == b, self.R[a], False))


def has_content(t):
    return z3.Or(t == FILE, t == LINK)


SAME_FILE = z3.Function('names_of_one_file', K, K, B)
TRUNCATED = z3.Function('truncated', I, I, I)


def is_mode(t):
    def f(vc, mode):
        if isinstance(mode, ModeOf):
            return mk_bool(mode.type == t)
        raise Unsupported('type of a mode')
    return f


class ModeOf(SInt):
    """a mode whose type is known"""

    def __init__(self, z, type_):
        super().__init__(z)
        self.type = type_


def _join(x):
    items = x.items if isinstance(x, (SList, Split)) else list(x)
    out = []
    for i in items:
        out += ['/', i] if out else [i]
    return out


def key_of_text(t, suffix=''):
    """folder + '/' + name [+ suffix] is the text of the path"""
    if not isinstance(t, Text):
        return None
    p = list(t.parts)
    if suffix:
        if p and p[-1] == suffix:
            p.pop()
        else:
            return None
    if len(p) == 3 and p[1] == '/':
        return key_of([p[0], p[2]])
    return None


class Target(Model):
    def __init__(self, st, k):
        self.st, self.k = st, k

    def enter(self, vc):
        return self

    def exit(self, vc, e):
        return False

    def m_close(self, vc):
        return None


class Source(Model):
    def __init__(self, st, content):
        self.st, self.content = st, content

    def enter(self, vc):
        return self

    def exit(self, vc, e):
        return False

    def m_close(self, vc):
        return None


class Mount(Model):
    """contract of the union of the overlay folder, with the highest priority, and the other sources"""

    def __init__(self, st):
        self.st = st

    def m_exists(self, vc, p):
        return mk_bool(self.st.exists(p.z))

    def m_is_dir(self, vc, p):
        st = self.st
        return mk_bool(z3.And(st.exists(p.z), st.type(p.z) == FOLDER))

    def m_lookup(self, vc, p, fileVersion=0):
        st = self.st
        if not vc.branch(st.exists(p.z)):
            return None
        return self.info(vc, p)

    def info(self, vc, p):
        st, k = self.st, p.z
        fields = {a: mk_int(st.below(k, a)) for a in ATTRS}
        fields['mode'] = ModeOf(st.below(k, 'mode'), st.type(k))
        o = vc.new(Obj(FileInfo, {**fields, 'size': vc.int('size'), 'linkname': mk_int(st.content(k)), 'userdata': vc.val('userdata')}, 'info'))
        o.path = p
        return o

    def m_get_mount_source(self, vc, info):
        return ('', self, info)

    def m_versions(self, vc, p):
        st, k = self.st, p.z
        n = vc.nat('versions_elsewhere')
        vc.assume((n.z > 0) == st.A[k])
        return mk_int(n.z + z3.If(st.O[k], 1, 0))

    def m_open(self, vc, info, buffering=-1):
        st = self.st
        st.may_fail('opening')
        if not hasattr(info, 'path'):
            raise Unsupported('open of another entry')
        return Source(st, st.content(info.path.z))

    def m_list_mode(self, vc, p):
        raise Unsupported('list_mode')


class Connection(Model):
    def __init__(self, st):
        self.st = st

    def m_execute(self, vc, text, params=()):
        return self.st.execute(vc, text, params)


def overlay(vc, st):
    return vc.new(Obj(W, {'sqlConnection': Connection(st), 'mountSource': st.source(), 'root': vc.val('root'), 'ignoredPrefixes': SList(items=[])}, 'overlay'))


def split_path(interp, vc, path):
    if not isinstance(path, Path):
        raise Unsupported('_split_path of something else')
    return (Folder(path), Name(path))


def realpath(interp, vc, self, path):
    if not isinstance(path, Path):
        raise Unsupported('_realpath of something else')
    return Real(path)


def parent_contract(st):
    """parents that exist get created in the overlay; nobody sees a difference"""
    def f(interp, vc, self, path):
        before = st.snapshot()
        for n, s in (('O', B), ('R', B), ('D', B), ('OT', I), ('OC', I)):
            setattr(st, n, z3.Const(vc.name(n + '_with_parents'), z3.ArraySort(K, s)))
        for a in ATTRS:
            st.has[a] = z3.Const(vc.name('has_with_parents'), z3.ArraySort(K, B))
            st.val[a] = z3.Const(vc.name('val_with_parents'), z3.ArraySort(K, I))
            st.oattr[a] = z3.Const(vc.name('attr_with_parents'), z3.ArraySort(K, I))
        for p in st.tracked:
            vc.assume(parents_created(before, st, p.z, path.z))
        if st.failing and not st.failed and vc.choose('creating parents fails'):
            st.failed.append('parents')
            raise PyRaise(OSError, ())
    return f


def parents_created(before, after, k, path):
    """what _ensure_parent_exists(path) may do to k, on success or failure"""
    untouched = z3.And(before.O[k] == after.O[k], before.R[k] == after.R[k], before.D[k] == after.D[k], before.OT[k] == after.OT[k], before.OC[k] == after.OC[k],
                       *[z3.And(before.has[a][k] == after.has[a][k], before.val[a][k] == after.val[a][k], before.oattr[a][k] == after.oattr[a][k]) for a in ATTRS])
    return z3.Or(untouched, z3.And(INSIDE(path, k), before.visible(k), before.type(k) == FOLDER, after.same(before, k), after.invariant(k),
                                   z3.Implies(before.O[k], after.O[k])))


CONTRACTS = {WM + '_split_path': split_path, WM + '_realpath': realpath, WM + 'is_control_file': lambda interp, vc, self, path: mk_bool(CONTROL(path.z))}


def interp_for(vc, st, more=None):
    return Interp(vc, contracts={**CONTRACTS, WM + '_ensure_parent_exists': parent_contract(st), **(more or {})}, models=st.models())
