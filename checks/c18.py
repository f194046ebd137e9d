"""C18 Mounted archives are never modified and overlay writes stay in the overlay.

Proved: for every path text, the place in the overlay folder that an operation works on is the root of the overlay followed by the
components of the path without any dot-dot, and it is one of the bookkeeping files only if is_control_file says so; every decorated
operation refuses such paths before its body runs and otherwise passes its arguments on unchanged; the bodies only touch the overlay
folder and never follow a link out of it (the units of C17, for these obligations alone); without an overlay every modifying
operation of FuseMount is refused as read-only.
"""
import errno
import inspect
import os
import posixpath
import shutil
import sqlite3
import stat
import types

import z3

import pyvc
from checks import c17, overlay, paths
from checks.overlaymodel import CONTROL, WM, FS, overlay as overlay_object
from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt

from pyvc.interp import Interp, LoopSpec
from pyvc.ops import mk_bool, zs
from pyvc.values import Model, Obj, PyRaise, SBool, SInt, SList, SStr, Unsupported, zi
from ratarmount import FuseMount as fuse_mount
from ratarmount import WriteOverlay
from ratarmount.FuseMount import CommandFile, FuseMount
from ratarmount.WriteOverlay import WritableFolderMountSource as W
from ratarmount.fuse import fuse

V = z3.StringVal
HIDDEN = ('.ratarmount.overlay.sqlite', '.ratarmount.overlay.sqlite-journal', '.ratarmount.overlay.sqlite-shm', '.ratarmount.overlay.sqlite-wal')


# ------------------------------------------------------------------------------------------------ path texts
def text_models():
    return {posixpath.normpath: paths.normpath}


def no_dots(vc, r):
    """more facts on rel (validated with the others)"""
    for d in ('..', '.'):
        vc.assume(z3.And(r != V(d), z3.Not(z3.PrefixOf(V(d + '/'), r)), z3.Not(z3.SuffixOf(V('/' + d), r)), z3.Not(z3.Contains(r, V('/' + d + '/')))))


def lstripped(vc, path):
    """what lstrip('/') does keeps the components"""
    vc.assume(z3.BoolVal(True))


class PathText(Model):
    """an arbitrary text of a path; only the text without leading slashes gets used"""

    pytype = str

    def __init__(self, vc):
        self.z = z3.String(vc.name('path'))
        self.rel = paths.rel_facts(vc, self.z)
        no_dots(vc, self.rel)
        self.stripped = z3.String(vc.name('stripped'))
        paths.rel_facts(vc, self.stripped)
        vc.assume(z3.And(z3.Not(z3.PrefixOf(V('/'), self.stripped)), paths.REL(self.stripped) == self.rel, z3.SuffixOf(self.stripped, self.z)))

    def m_lstrip(self, vc, chars=None):
        if chars != '/':
            raise Unsupported('lstrip of something else')
        return SStr(self.stripped)

    def radd(self, vc, other):
        return SStr(z3.Concat(zs(other), self.z))


def is_hidden(rel):
    return z3.Or(*[z3.Or(rel == V(h), z3.PrefixOf(V(h + '/'), rel)) for h in HIDDEN])


def unit_realpath(vc):
    path, root = PathText(vc), vc.str('root')
    vc.assume(z3.And(z3.Length(root.z) > 0, z3.Or(root.z == V('/'), z3.Not(z3.SuffixOf(V('/'), root.z)))))
    self = vc.new(Obj(W, {'root': root}, 'overlay'))
    stripped = []

    def join(vc, a, b):
        vc.prove(z3.Not(z3.PrefixOf(V('/'), zs(b))), 'joining does not leave the root')
        return SStr(z3.If(z3.SuffixOf(V('/'), zs(a)), z3.Concat(zs(a), zs(b)), z3.Concat(zs(a), V('/'), zs(b))))

    def lstrip(vc, s, chars):
        # only for '/' + rel: leading slashes are one
        z = zs(s)
        stripped.append(1)
        return SStr(z3.SubString(z, 1, z3.Length(z) - 1))

    interp = Interp(vc, models={**text_models(), posixpath.join: join})
    r = interp.run_function(W._realpath, [self, path])
    vc.prove(zs(r) == z3.Concat(root.z, z3.If(root.z == V('/'), V(''), V('/')), path.rel), 'it is the components of the path below the root of the overlay')
    vc.prove(z3.And(path.rel != V('..'), z3.Not(z3.PrefixOf(V('../'), path.rel)), z3.Not(z3.Contains(path.rel, V('/../'))), z3.Not(z3.SuffixOf(V('/..'), path.rel))),
             'there is no way out of the overlay in it')


def unit_split(vc):
    path = PathText(vc)
    r = Interp(vc, models=text_models()).run_function(W._split_path, [path])
    folder, name = r
    vc.prove(z3.Concat(zs(folder), V('/'), zs(name)) == z3.Concat(V('/'), path.rel), 'folder and name are those of the components of the path')
    vc.prove(z3.Not(z3.Contains(zs(name), V('/'))), 'the name is the last component')


def unit_control(vc):
    path = PathText(vc)
    first = z3.String(vc.name('first'))
    slash = z3.IndexOf(path.rel, V('/'), 0)
    vc.assume(first == z3.If(slash < 0, path.rel, z3.SubString(path.rel, 0, slash)))

    def inv(vc, L):
        n = zs(L.name)
        return [('a hidden name stays one', z3.And(*[z3.Implies(first == V(h), n == V(h)) for h in HIDDEN])),
                ('only version suffixes get removed', z3.And(z3.PrefixOf(n, first), z3.Implies(z3.Not(z3.SuffixOf(V('.versions'), first)), n == first)))]

    def split(vc, s):
        vc.prove(zs(s) == z3.Concat(V('/'), path.rel), 'the components of the path are looked at')
        return First(first)
    interp = Interp(vc, models={**text_models(), ('split', '/'): split},
                    loops={(WM + 'is_control_file', 0): LoopSpec(inv, havoc={'name': lambda vc, L: vc.str('name')}, decreases=lambda vc, L: z3.Length(zs(L.name)))})
    r = interp.run_function(W.is_control_file.__func__, [W, path])
    got = zbool(vc, r)
    vc.prove(z3.Implies(is_hidden(path.rel), got), 'the bookkeeping files and everything below are recognised under any spelling')
    vc.prove(z3.Implies(got, z3.Or(*[z3.PrefixOf(V(h), first) for h in HIDDEN])), 'nothing else is taken for them')
    vc.prove(z3.Implies(z3.And(got, z3.Not(is_hidden(path.rel))), z3.SuffixOf(V('.versions'), first)), 'nothing else is taken for them')


def zbool(vc, r):
    return r.z if isinstance(r, SBool) else z3.BoolVal(bool(r))


class First(Model):
    def __init__(self, z):
        self.z = z

    def getitem(self, vc, i):
        if i != 1:
            raise Unsupported('another component')
        return SStr(self.z)


# ------------------------------------------------------------------------------------------------ decorated operations
def plain(f, inner=None):
    """the function with the decorators' wrappers made visible to the verifier; they stay the code that runs"""
    if not hasattr(f, '__wrapped__'):
        return f
    cells = []
    for name, cell in zip(f.__code__.co_freevars, f.__closure__ or ()):
        v = cell.cell_contents
        cells.append(types.CellType(plain(v) if isinstance(v, types.FunctionType) else v))
    g = types.FunctionType(f.__code__, f.__globals__, f.__code__.co_name, f.__defaults__, tuple(cells))
    g.__qualname__ = f.__code__.co_qualname
    g.__kwdefaults__ = f.__kwdefaults__
    return g


# operation -> kinds of its arguments after self
OPERATIONS = {
    'chmod': 'pi', 'chown': 'pii', 'utimens': 'pi', 'rename': 'pp', 'symlink': 'pi', 'link': 'pq', 'mkdir': 'pi', 'rmdir': 'p', 'open': 'pi', 'create': 'pii',
    'unlink': 'p', 'mknod': 'pii', 'truncate': 'pii', 'write': 'piii', 'flush': 'pi', 'fsync': 'pii', 'statfs': 'p',
}
MODIFYING = ('chmod', 'chown', 'utimens', 'rename', 'symlink', 'link', 'mkdir', 'rmdir', 'create', 'unlink', 'mknod', 'truncate', 'write', 'setxattr', 'removexattr', 'fallocate')


class AnyPath(Model):
    pytype = str

    def __init__(self, vc, name):
        self.control = z3.Bool(vc.name(name + '_is_bookkeeping'))
        self.ignored = z3.Bool(vc.name(name + '_is_below_an_ignored_prefix'))

    def m_startswith(self, vc, prefix):
        return mk_bool(self.ignored)


def unit_wrapper(op):
    f = getattr(W, op)

    def unit(vc):
        kinds = OPERATIONS[op]
        args = [AnyPath(vc, k) if k in 'pq' else vc.int('argument') for k in kinds]
        names = list(inspect.signature(inspect.unwrap(f)).parameters)[1:]
        keywords = vc.choose('passed by name')
        calls = []

        def body(interp, vc, self, *a, **kw):
            vc.prove(self is me, 'the operation is called')
            got = dict(zip(names, a))
            got.update(kw)
            calls.append(got)
            return result
        result = vc.val('result')
        prefix = vc.str('prefix')
        me = vc.new(Obj(W, {'ignoredPrefixes': SList(items=[prefix])}, 'overlay'))
        raw = inspect.unwrap(f)
        interp = Interp(vc, contracts={f'{raw.__module__}:{raw.__qualname__}': body, WM + 'is_control_file': lambda interp, vc, self, p: mk_bool(p.control)})
        g = plain(f)
        if g is raw:
            # Undecorated: nothing is checked.
            checked = [a for k, a in zip(kinds, args) if k == 'p']
            vc.prove(z3.Not(z3.Or(*[a.control for a in checked])), 'the bookkeeping files are refused')
            return
        kind, r = attempt(lambda: interp.run_function(g, [me] if keywords else [me, *args], dict(zip(names, args)) if keywords else {}))
        hostile = z3.Or(*[z3.Or(a.control, a.ignored) for k, a in zip(kinds, args) if k == 'p'])
        if kind == 'ok':
            vc.prove(z3.Not(hostile), 'the bookkeeping files are refused')
            vc.prove(len(calls) == 1 and all(calls[0].get(n) is a for n, a in zip(names, args)) and len(calls[0]) == len(args), 'the arguments are passed on as they are')
            vc.prove(r is result, 'the result is that of the operation')
        else:
            vc.prove(hostile, 'only the bookkeeping files and ignored prefixes are refused')
            vc.prove(isinstance(r.cls, type) and issubclass(r.cls, OSError), 'they are refused with an operating system error')
            vc.prove(not calls, 'nothing happens for what is refused')
    return Unit(f'checks of {op}', unit, [WriteOverlay.check_ignored_prefixes, inspect.unwrap(f)])


SAFE = ('only touches the overlay folder', 'does not touch the metadata database', 'follow a link')


def only_safety(unit):
    """the unit of C17 with only the obligations about what is touched"""
    def run(vc):
        prove = vc.prove
        vc.prove = lambda c, name: prove(c, name) if any(s in name for s in SAFE) else None
        try:
            unit.run(vc)
            prove(True, 'done')
        finally:
            vc.prove = prove
    return Unit('what is touched: ' + unit.name, run, unit.functions)


def unit_link_to_bookkeeping(vc):
    """the source of a hard link is not checked by the decorator"""
    st = FS(vc, failing=False)
    p, q = st.path('p'), st.path('q')
    vc.assume(z3.And(z3.Not(CONTROL(p.z)), CONTROL(q.z), p.z != q.z))
    from checks.overlaymodel import interp_for
    kind, r = attempt(lambda: interp_for(vc, st).run_function(c17.raw('link'), [overlay_object(vc, st), p, q]))
    vc.prove(kind == 'exc' and issubclass(r.cls, OSError), 'bookkeeping files cannot be linked to')


# ------------------------------------------------------------------------------------------------ without an overlay
class Archive(Model):
    def __init__(self, vc):
        self.vc = vc

    def __getattr__(self, name):
        if name.startswith(('m_', 'a_')):
            def f(vc, *args, **kwargs):
                vc.prove(False, 'nothing is done to the archive')
            return f
        raise AttributeError(name)


class Opened(Model):
    """an opened file of the archive: it may claim to be writable"""

    pytype = object

    def m_writable(self, vc):
        return vc.bool('writable')

    def m_seekable(self, vc):
        return vc.bool('seekable')

    def m_tell(self, vc):
        return vc.nat('position')

    def m_seek(self, vc, offset, whence=0):
        return offset

    def m_write(self, vc, data):
        vc.prove(False, 'nothing is written to the archive')

    def m_close(self, vc):
        return None


class Opens(Model):
    def __init__(self, entry):
        self.entry = entry

    def contains(self, vc, k):
        return True

    def getitem(self, vc, k):
        return self.entry

    def setitem(self, vc, k, v):
        self.entry = v


def unit_readonly(op):
    f = getattr(FuseMount, op)

    def unit(vc):
        control = vc.choose('control interface') if op == 'truncate' else False
        fields = {'writeOverlay': None, 'mountSource': Archive(vc), '_enableControlInterface': control, '_controlLayerPrefix': '/.ratarmount-control/',
                  'openedFiles': Opens((vc.int('flags'), Opened()))}
        self = vc.new(Obj(FuseMount, fields, 'mount'))
        raw = inspect.unwrap(f)
        n = len(inspect.signature(raw).parameters) - 1
        path = vc.str('path')
        args = [path, *[vc.int('argument') for _ in range(n - 1)]]
        kind, r = attempt(lambda: Interp(vc).run_function(raw, [self, *args]))
        if kind == 'ok':
            vc.prove(z3.And(z3.BoolVal(bool(control)), z3.PrefixOf(V('/.ratarmount-control/'), path.z)), 'it is refused')
            return
        vc.prove(r.cls is fuse.FuseOSError, 'it is refused with an operating system error')
        vc.prove(bool(r.exc_args) and r.exc_args[0] == errno.EROFS, 'it is refused as read-only')
    return Unit(f'{op} without an overlay', unit, [inspect.unwrap(f)])


OVERRIDDEN = [op for op in MODIFYING if op in FuseMount.__dict__]
UNITS = [
    Unit('place in the overlay', unit_realpath, [W._realpath]),
    Unit('folder and name', unit_split, [W._split_path]),
    Unit('bookkeeping files', unit_control, [W.is_control_file.__func__]),
    *[unit_wrapper(op) for op in OPERATIONS if op in W.__dict__],
    Unit('links to bookkeeping files', unit_link_to_bookkeeping, [c17.raw('link'), W._ensure_exists]),
    *[only_safety(u) for u in c17.UNITS],
    *[unit_readonly(op) for op in OVERRIDDEN],
]


# ------------------------------------------------------------------------------------------------ runs
def spell(rng, path):
    """other ways to write the same path"""
    parts = path.strip('/').split('/')
    r = rng.randrange(8)
    if r == 0:
        return path
    if r == 1:
        return '/' * rng.randrange(1, 4) + '/'.join(parts)
    if r == 2:
        return '/' + '//'.join(parts)
    if r == 3:
        return '/./' + '/./'.join(parts)
    if r == 4:
        return '/zz/../' + '/'.join(parts)
    if r == 5:
        return '/../../' + '/'.join(parts)
    if r == 6:
        return path + '/'
    return '/'.join(parts)


def hostile(rng, w, outside):
    r = rng.random()
    if r < 0.4:
        h = rng.choice(HIDDEN)
        return spell(rng, '/' + h + rng.choice(('', '', '', '.versions', '.versions/1', '.versions/0', '.versions.versions', '/x')))
    if r < 0.7:
        up = '/..' * rng.randrange(1, 12)
        return rng.choice((up, '/a' + up, up[1:])) + rng.choice((outside, '/' + os.path.relpath(outside, w.overlay), '/etc/ratarmount-none', '/' + os.path.basename(outside)))
    if r < 0.85:
        return spell(rng, outside)
    e = sorted(w.existing())
    return spell(rng, rng.choice(e) if e and rng.random() < 0.7 else '/' + rng.choice(overlay.NAMES))


def all_calls(rng, m, p, q):
    fh = rng.choice([0, 1, 2, 99, *m.openedFiles])
    ops = [
        ('chmod', p, 0o100777), ('chown', p, 1, 1), ('utimens', p, None), ('utimens', p, (1, 1)), ('rename', p, q), ('symlink', p, q), ('link', p, q), ('unlink', p), ('mkdir', p, 0o777),
        ('rmdir', p), ('mknod', p, stat.S_IFREG | 0o666, 0), ('mknod', p, stat.S_IFIFO | 0o666, 0), ('create', p, 0o100666), ('truncate', p, 0), ('truncate', p, 3, fh), ('open', p, os.O_RDWR),
        ('open', p, os.O_WRONLY | os.O_TRUNC), ('open', p, os.O_WRONLY | os.O_CREAT), ('open', p, os.O_RDONLY), ('write', p, b'hostile', 0, fh), ('release', p, fh), ('flush', p, fh),
        ('fsync', p, 0, fh), ('setxattr', p, 'user.x', b'1', 0), ('removexattr', p, 'user.x'), ('getattr', p), ('readdir', p, 0), ('readlink', p), ('statfs', p), ('read', p, 10, 0, fh),
        ('listxattr', p), ('getxattr', p, 'user.x'), ('fallocate', p, 0, 0, 10, fh),
    ]
    return rng.choice(ops)


def perform(m, op):
    """('ok', result) or ('error', errno)"""
    try:
        r = getattr(m, op[0])(*op[1:])
        return 'ok', list(r) if op[0] == 'readdir' else r
    except OSError as e:
        return 'error', e.errno
    except (KeyError, ValueError, TypeError, AttributeError, IsADirectoryError, NotImplementedError) as e:
        return 'error', repr(e)


def snapshot(root, skip=()):
    out = {}
    for p in overlay.folder_paths(root):
        if p.split('/')[0] in skip:
            continue
        q = os.path.join(root, p) if p else root
        st = os.lstat(q)
        data = None
        if stat.S_ISREG(st.st_mode):
            with open(q, 'rb') as f:
                data = f.read()
        elif stat.S_ISLNK(st.st_mode):
            data = os.readlink(q)
        out[p] = (st.st_mode, st.st_uid, st.st_gid, st.st_mtime_ns if p else 0, data)
    return out


def pipe(w, path):
    try:
        return stat.S_ISFIFO(os.lstat(os.path.join(w.overlay, paths.rel_py(path))).st_mode)
    except OSError:
        return False


class KeptRows:
    """The metadata database must stay what only statements of the overlay make of it."""

    def __init__(self, w):
        self.m, self.path = w.m, os.path.join(w.overlay, HIDDEN[0])

    def rows(self):
        return sorted(map(tuple, self.m.writeOverlay.sqlConnection.execute('SELECT * FROM "files"')), key=repr)


def run_hostile(ctx):
    c17.quiet()
    os.umask(0)
    rng = ctx.rng
    for _ in range(ctx.budget(60, 2500)):
        if ctx.out_of_time():
            return
        tmp = ctx.tmp()
        inside = os.path.join(tmp, 'inside')
        os.mkdir(inside)
        outside = os.path.join(tmp, 'outside')
        os.mkdir(outside)
        with open(os.path.join(outside, 'file'), 'wb') as f:
            f.write(b'outside')
        os.symlink('/etc/none', os.path.join(outside, 'link'))
        w = overlay.World(inside, rng)
        with ctx.case({'source': w.source, 'options': w.options, 'start': {p: s[0] for p, s in w.start.items()}, 'log': w.log}) as c:
            for _i in range(rng.randrange(1, 20)):
                w.step(c)
            for h in list(w.handles):
                w.close(h)
            keep = (snapshot(outside), snapshot(w.ref), w.sources_state(), sorted(os.listdir(tmp)), sorted(os.listdir(inside)))
            for _i in range(60):
                p, q = hostile(rng, w, rng.choice((outside, outside + '/file', outside + '/new', w.paths[0], w.paths[0] + '/a'))), hostile(rng, w, outside + '/file')
                if rng.random() < 0.5:
                    p, q = q, p
                op = all_calls(rng, w.m, p, q)
                if pipe(w, op[1]) or (isinstance(op[2] if len(op) > 2 else 0, str) and pipe(w, op[2])):
                    continue  # the kernel handles these itself, opening one waits
                w.log.append(op)
                control = [x for x in (op[1], op[2] if op[0] in ('rename', 'link') else None) if isinstance(x, str) and is_bookkeeping(x)]
                rows = KeptRows(w).rows() if control else None
                got = perform(w.m, op)
                if control and op[0] not in ('statfs', 'release', 'flush', 'fsync', 'read', 'write', 'readdir'):
                    c.equal(got[0], 'error', 'bookkeeping files cannot be seen or changed', operation=op, log=w.log)
                    c.equal(KeptRows(w).rows(), rows, 'bookkeeping files cannot be changed', operation=op, log=w.log)
                if op[0] == 'readdir' and got[0] == 'ok':
                    names = overlay.names(got[1])
                    c.check(not set(names) & set(HIDDEN) and not any(n.startswith(HIDDEN[0]) and n.split('.versions')[0] in HIDDEN for n in names),
                            'bookkeeping files are not listed', operation=op, names=names, log=w.log)
            for fh in list(w.m.openedFiles):
                w.m.release('/', fh)
            now = (snapshot(outside), snapshot(w.ref), w.sources_state(), sorted(os.listdir(tmp)), sorted(os.listdir(inside)))
            for a, b, what in zip(keep, now, ('other files', 'other files', 'mounted archives and folders', 'other files', 'other files')):
                c.equal(b, a, f'{what} are not changed', log=w.log)
            c.check(all(h == HIDDEN[0] or h not in HIDDEN or os.path.isfile(os.path.join(w.overlay, h)) for h in os.listdir(w.overlay)), 'bookkeeping files stay what they are')
            for p in overlay.folder_paths(w.overlay):
                q = os.path.join(w.overlay, p)
                if p and os.lstat(q).st_nlink > 1 and not os.path.isdir(q) and stat.S_ISREG(os.lstat(q).st_mode):
                    c.check(os.lstat(q).st_ino != os.lstat(os.path.join(w.overlay, HIDDEN[0])).st_ino, 'bookkeeping files are not linked', path=p, log=w.log)
            w.unmount()
            con = sqlite3.connect(os.path.join(w.overlay, HIDDEN[0]))
            c.equal(con.execute('PRAGMA integrity_check').fetchall(), [('ok',)], 'the metadata database stays valid', log=w.log)
            c.check(all(not is_bookkeeping(f'{a}/{b}') for a, b in con.execute('SELECT path, name FROM "files"')), 'the bookkeeping files have no metadata', log=w.log)
            con.close()
        shutil.rmtree(tmp)


def run_directed(ctx):
    """every operation with every bookkeeping name in every position, and links that lead out of the overlay"""
    c17.quiet()
    os.umask(0)
    rng = ctx.rng
    for round_ in range(ctx.budget(6, 200)):
        if ctx.out_of_time():
            return
        tmp = ctx.tmp()
        inside, outside = os.path.join(tmp, 'inside'), os.path.join(tmp, 'outside')
        os.mkdir(inside)
        os.makedirs(os.path.join(outside, 'folder'))
        for n in ('file', 'folder/file'):
            with open(os.path.join(outside, n), 'wb') as f:
                f.write(b'outside')
        w = overlay.World(inside, rng, versions=round_ % 2 == 0)
        with ctx.case({'source': w.source, 'options': w.options, 'start': {p: s[0] for p, s in w.start.items()}, 'log': w.log}) as c:
            m = w.m
            for n in ('/mine', '/other'):
                m.release(n, m.create(n, 0o100644))
            m.mkdir('/mine folder', 0o755)
            keep = (snapshot(outside), w.sources_state())
            rows = KeptRows(w).rows()
            archive = next((p for p, s in sorted(w.start.items()) if s[0] == 'file'), '/mine')
            for h in HIDDEN:
                for name in ('/' + h, spell(rng, '/' + h), '/' + h + '.versions/1', '/' + h + '.versions', '/mine folder/../' + h, '/' + h + '/x'):
                    for q in ('/mine', archive, '/mine folder', '/new'):
                        for op in (('rename', name, q), ('rename', q, name), ('link', name, q), ('link', q, name)):
                            if op[0] == 'link' and op[1] == q and q != '/new':
                                continue
                            c.equal(perform(m, op)[0], 'error', 'bookkeeping files cannot be seen or changed', operation=op)
                    for op in (('chmod', name, 0o100777), ('chown', name, 5, 5), ('utimens', name, None), ('unlink', name), ('symlink', name, 'a'), ('mkdir', name, 0o755), ('rmdir', name),
                               ('mknod', name, stat.S_IFREG | 0o644, 0), ('create', name, 0o100644), ('truncate', name, 0), ('open', name, os.O_RDWR), ('open', name, os.O_RDONLY), ('getattr', name),
                               ('readlink', name)):
                        c.equal(perform(m, op)[0], 'error', 'bookkeeping files cannot be seen or changed', operation=op)
            c.equal(KeptRows(w).rows(), rows, 'bookkeeping files cannot be changed')
            for root in ('/', '', '//'):
                listed = overlay.names(m.readdir(root, 0)) if root == '/' else [*overlay.names(perform(m, ('readdir', root, 0))[1] or [])]
                c.check(not [n for n in listed if is_bookkeeping(n)], 'bookkeeping files are not listed', listed=listed)
            # What is a link for the kernel does not get opened; everything else may be.
            up = os.path.relpath(outside, w.overlay)
            for i, target in enumerate((outside + '/file', up + '/file', outside, up, outside + '/folder', '/' * 3 + outside.lstrip('/') + '/folder/file', outside + '/new')):
                link = f'/link{i}'
                m.symlink(link, target)
                m.utimens(link, (1, 1))
                m.chown(link, 5, 5)
                perform(m, ('chmod', link, 0o120777))
                st = m.getattr(link)
                if stat.S_ISLNK(st['st_mode']):
                    c.equal(m.readlink(link), target, 'a link leads where it was told to')
                elif stat.S_ISREG(st['st_mode']):
                    perform(m, ('truncate', link, 1))
                    got = perform(m, ('open', link, os.O_RDWR))
                    if got[0] == 'ok':
                        perform(m, ('write', link, b'changed', 0, got[1]))
                        m.release(link, got[1])
                else:
                    for op in (('create', link + '/new', 0o100644), ('mkdir', link + '/new2', 0o755), ('unlink', link + '/file'), ('truncate', link + '/folder/file', 0), ('chmod', link + '/file', 0o100777)):
                        perform(m, op)
                if rng.random() < 0.5:
                    m.rename(link, link + ' renamed')
                    link += ' renamed'
                if rng.random() < 0.5:
                    perform(m, ('unlink', link))
            c.equal((snapshot(outside), w.sources_state()), keep, 'other files are not changed through links', source=w.source)
            w.unmount()
        shutil.rmtree(tmp)


def is_bookkeeping(path):
    rel = paths.rel_py(path)
    first = rel.split('/')[0]
    while first.endswith('.versions'):
        first = first[:-len('.versions')]
    return first in HIDDEN


def run_readonly(ctx):
    c17.quiet()
    os.umask(0)
    rng = ctx.rng
    for _ in range(ctx.budget(60, 2500)):
        if ctx.out_of_time():
            return
        tmp = ctx.tmp()
        w = overlay.World(tmp, rng)
        w.unmount()
        shutil.rmtree(w.overlay)
        outside = w.ref + '/zz'
        log = []
        with ctx.case({'source': w.source, 'options': w.options, 'start': {p: s[0] for p, s in w.start.items()}, 'log': log}) as c:
            options = {**w.options, 'recursive': rng.random() < 0.3, 'lazyMounting': rng.random() < 0.3, 'indexFilePath': ':memory:'}
            with FuseMount(list(w.paths), w.point, **options) as m:
                before = overlay.walk_mount(m)
                keep = (snapshot(tmp), w.sources_state())
                for _i in range(80):
                    p, q = ((rng.choice(sorted(before)), rng.choice(sorted(before) + ['/new', '/a/new'])) if rng.random() < 0.6 else (hostile(rng, w, outside), hostile(rng, w, outside)))
                    op = all_calls(rng, m, p, q)
                    log.append(op)
                    got = perform(m, op)
                    if op[0] in MODIFYING and op[0] not in ('utimens', 'setxattr', 'removexattr', 'fallocate', 'write'):
                        c.equal(got, ('error', errno.EROFS), 'modifying operations are refused as read-only', operation=op)
                    if op[0] in ('setxattr', 'removexattr', 'fallocate', 'write'):
                        c.equal(got[0], 'error', 'modifying operations are refused', operation=op)
                    if op[0] == 'write' and op[4] in m.openedFiles:
                        c.equal(got, ('error', errno.EROFS), 'modifying operations are refused as read-only', operation=op)
                for fh in list(m.openedFiles):
                    m.release('/', fh)
                after = overlay.walk_mount(m)
                before['/'] = after['/']  # its time is that of the mount
                c.equal(after, before, 'nothing changes', log=log)
                c.equal((snapshot(tmp), w.sources_state()), keep, 'mounted archives and folders are not changed', log=log)
        shutil.rmtree(tmp)


def run_texts(ctx):
    """is_control_file and _realpath for all short paths of interesting components"""
    import itertools
    n = ctx.budget(3, 4)
    parts = ('', '.', '..', 'a', HIDDEN[0], HIDDEN[3], HIDDEN[0] + '.versions', HIDDEN[0] + '.x', '.versions', HIDDEN[1] + '.versions.versions')
    w = object.__new__(W)
    w.root = '/root/of/overlay'
    for k in range(1, n + 1):
        for t in itertools.product(parts, repeat=k):
            for s in ('/' + '/'.join(t), '/'.join(t)):
                with ctx.case({'path': s}) as c:
                    rel = paths.rel_py(s)
                    c.equal(W.is_control_file(s), is_bookkeeping(s), 'the bookkeeping files are recognised')
                    c.equal(w._realpath(s), w.root + '/' + rel, 'the place in the overlay')
                    c.equal('/'.join(W._split_path(s)), '/' + rel, 'folder and name')
                    c.check('..' not in rel.split('/') and '.' not in rel.split('/') or rel == '', 'trusted facts on rel')


ORACLES = [
    Oracle('hostile paths', run_hostile, [FuseMount.open, FuseMount.create, FuseMount.write, *[inspect.unwrap(getattr(W, o)) for o in OPERATIONS if o in W.__dict__]],
           '60 (2500) random histories followed by 60 operations with bookkeeping names, dot-dot and absolute paths of other files', unprivileged=True, quick_s=25),
    Oracle('bookkeeping files and links to the outside', run_directed, [W.is_control_file.__func__, WriteOverlay.check_ignored_prefixes],
           '6 (200) mounts, 19 operations with 24 spellings of the bookkeeping files each, 7 links to other files', unprivileged=True, quick_s=25),
    Oracle('read-only mounts', run_readonly, [FuseMount.open, FuseMount.create, FuseMount.write, FuseMount.truncate, FuseMount.__init__], '60 (2500) mounts without an overlay, 80 operations each',
           unprivileged=True, quick_s=25),
    Oracle('spellings of paths', run_texts, [W.is_control_file.__func__, W._realpath, W._split_path], 'all paths of up to 3 (4) components out of 10', quick_s=20, thorough_s=200),
]
TRUSTED = ['posixpath.normpath (contract validated on all strings up to 7 characters by C07)', 'the kernel resolves links itself before it asks', 'str.lstrip keeps everything but leading slashes',
           'fuse.Operations refuses what FuseMount does not override']
LEVEL = 'proof'
