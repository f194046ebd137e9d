"""C26 All given mount sources are mounted and the mount never reads itself.

Contracts on the names of sources mounted side by side (distinct, not empty, none lost), on the splitting of control commands, on the
recognition of paths inside the mount point and on the filter of index locations; bounded runs mount generated sources and commands.
"""
import contextlib
import io
import logging
import os
import shutil
import tarfile

import z3

from checks import c17
from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp, LoopSpec
from pyvc.ops import mk_bool, mk_int
from pyvc.values import Host, Model, Obj, SInt, SList, SStr, Unsupported, zb, zi, zs
from ratarmount import FuseMount as mod
from ratarmount.FuseMount import CommandFile, FuseMount, split_command_line
from ratarmountcore.SQLiteIndex import SQLiteIndex
from ratarmountcore.mountsource.compositing.singlefile import SingleFileMountSource
from ratarmountcore.mountsource.compositing.subvolumes import SubvolumesMountSource

I = z3.IntSort()
S = z3.StringSort()
V = z3.StringVal
Q = 'ratarmount.FuseMount:'


# ------------------------------------------------------------------------------------------------ command lines
class Joined(Model):
    """bytes: the arguments joined with the delimiter, possibly followed by a newline"""
    pytype = bytes

    def __init__(self, c, newline):
        self.c, self.newline = c, newline

    def truth(self, vc):
        return z3.Or(z3.BoolVal(self.newline), self.c.filled)

    def len(self, vc):
        raise Unsupported('length of the arguments')

    def getitem(self, vc, i):
        if i != -1:
            raise Unsupported(f'arguments[{i!r}]')
        return 10 if self.newline else mk_int(self.c.last)

    def getslice(self, vc, lo, hi, step=None):
        if lo is None and hi == -1 and step is None:
            if self.newline:
                return Joined(self.c, False)
            vc.prove(False, 'no byte of an argument is removed')
        raise Unsupported('part of the arguments')

    def m_endswith(self, vc, x):
        if x == b'\n':
            return True if self.newline else mk_bool(self.c.last == 10)
        raise Unsupported('endswith')

    def m_removesuffix(self, vc, x):
        if x == b'\n' and self.newline:
            return Joined(self.c, False)
        raise Unsupported('removesuffix')

    def m_split(self, vc, delimiter, *a):
        vc.prove(delimiter == self.c.delimiter, 'arguments are split at their delimiter')
        if self.newline:
            # the newline is part of the last argument, or, if it is the delimiter, one more argument is added
            vc.prove(self.c.delimiter != b' ', 'the newline added by echo is not an argument')
            raise Unsupported('newline')
        return self.c.arguments


class Command(Model):
    """bytes: the name, the delimiter and the joined arguments"""
    pytype = bytes

    def __init__(self, vc, name, delimiter, newline):
        self.name, self.delimiter, self.newline = name, delimiter, newline
        self.n = vc.nat('arguments').z
        vc.assume(self.n >= 1)
        argument = vc.func('argument', I, I)
        self.filled = vc.bool('not empty').z
        self.last = vc.int('last byte').z
        vc.assume(z3.And(0 <= self.last, self.last < 256))
        if not newline and delimiter == b' ':
            vc.assume(self.last != 10)  # one trailing newline is an artefact of echo
        self.arguments = SList(self.n, lambda i: Argument(argument(i)), mutable=True)
        self.argument = argument

    def m_startswith(self, vc, x):
        return x == self.name if len(x) <= len(self.name) else x == self.name + self.delimiter

    def eq(self, vc, o):
        if o == self.name:
            return False
        raise Unsupported('command == ' + repr(o))

    def len(self, vc):
        raise Unsupported('length of the command')

    def getslice(self, vc, lo, hi, step=None):
        k = len(self.name)
        if step is None and lo == k and hi == k + 1:
            return self.delimiter
        if step is None and lo == k + 1 and hi is None:
            return Joined(self, self.newline)
        raise Unsupported(f'command[{lo}:{hi}]')


class Argument(Model):
    pytype = bytes

    def __init__(self, z):
        self.z = z

    def map_terms(self, f):
        return Argument(f(self.z))


class Decoded(Model):
    pytype = str

    def __init__(self, z):
        self.z = z

    def map_terms(self, f):
        return Decoded(f(self.z))


def unit_split(vc):
    delimiter = (b'\0', b'\n', b' ')[vc.pick(3)]
    command = Command(vc, b'ratarmount', delimiter, delimiter == b' ' and vc.choose('echo'))
    interp = Interp(vc, models={os.fsdecode: lambda vc, a: Decoded(a.z)})
    kind, r = attempt(lambda: interp.run_function(split_command_line, [command]))
    if kind == 'exc':
        vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
        return
    vc.prove(r.length == command.n, 'as many arguments as given')
    k = vc.skolem()
    vc.assume(z3.And(0 <= k, k < command.n))
    a = r.elem(k)
    vc.prove(isinstance(a, Decoded), 'arguments are decoded')
    vc.prove(a.z == command.argument(k), 'every argument at its place')


def unit_command(vc):
    interp = Interp(vc)
    r = interp.run_function(split_command_line, [b'ratarmount'])
    vc.prove(isinstance(r, SList) and r.items == [], 'no arguments')
    for wrong in (b'', b'ratarmoun', b'other a', b'ratarmountx a', b'ratarmount,a'):
        kind, e = attempt(lambda w=wrong: interp.run_function(split_command_line, [w]))
        vc.prove(kind == 'exc' and e.cls is ValueError, 'other commands are refused')


# ------------------------------------------------------------------------------------------------ paths inside the mount point
def inside(mp, path):
    """z3: the normalized path is the mount point or below it"""
    return z3.Or(path == mp, z3.PrefixOf(z3.Concat(mp, V('/')), path))


def mount_object(vc):
    mp = vc.str('mount point')
    # os.path.realpath: absolute without trailing slash or repeated slashes
    vc.assume(z3.And(z3.PrefixOf(V('/'), mp.z), z3.Not(z3.PrefixOf(V('//'), mp.z)), z3.Length(mp.z) > 1, z3.Not(z3.SuffixOf(V('/'), mp.z))))
    return vc.new(Obj(FuseMount, {'mountPoint': mp}, 'mount')), mp.z


def unit_provided(vc):
    me, mp = mount_object(vc)
    path, norm = vc.str('path'), vc.str('normalized')
    # normpath keeps exactly two leading slashes
    plain = z3.If(z3.PrefixOf(V('//'), norm.z), z3.SubString(norm.z, 1, z3.Length(norm.z) - 1), norm.z)
    vc.assume(z3.Not(z3.PrefixOf(V('///'), norm.z)))

    def normpath(vc, p):
        vc.prove(zs(p) == path.z, 'the given path')
        return norm

    interp = Interp(vc, models={os.path.normpath: normpath})
    kind, r = attempt(lambda: interp.run_function(FuseMount._path_provided_by_us, [me, path]))
    if kind == 'exc':
        vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
        return
    if r is None:
        vc.prove(z3.Not(inside(mp, plain)), 'every path below the mount point is recognised')
        return
    vc.prove(inside(mp, plain), 'only paths below the mount point are recognised')
    vc.prove(z3.Implies(plain == mp, zs(r) == V('')), 'the mount point itself has an empty path')
    vc.prove(z3.Implies(plain != mp, z3.Concat(mp, V('/'), zs(r)) == plain), 'the path relative to the mount point')


# ------------------------------------------------------------------------------------------------ index locations
def unit_resolve(vc):
    me, mp = mount_object(vc)
    place, real = vc.str('absolute'), vc.str('real')
    given = vc.str('given')
    lexically, really = vc.bool('lexically inside'), vc.bool('really inside')

    def provided(i, vc, me_, path):
        z = zs(path)
        return None if not vc.branch(z3.Or(z3.And(z == place.z, lexically.z), z3.And(z != place.z, z == real.z, really.z))) else 'inside'

    def realpath(vc, p):
        vc.prove(z3.Not(lexically.z), 'links below the mount point are not followed')
        return real
    vc.assume(real.z != place.z)
    expanded = vc.str('expanded')

    def expand(vc, p):
        vc.prove(zs(p) == given.z, 'the given path')
        return expanded

    def absolute(vc, p):
        vc.prove(zs(p) == expanded.z, 'the home folder is expanded')
        return place
    interp = Interp(vc, contracts={Q + 'FuseMount._path_provided_by_us': provided},
                    models={os.path.expanduser: expand, os.path.abspath: absolute, os.path.realpath: realpath})
    r = interp.run_function(FuseMount._resolve_path_outside_fuse_mount, [me, given])
    if r is None:
        vc.prove(z3.Or(lexically.z, really.z), 'paths outside are kept')
    else:
        vc.prove(zs(r) == real.z, 'the real path')
        vc.prove(z3.Not(really.z), 'paths inside are dropped')


class Folder(Model):
    """str: index folder i as given, or the real path of it"""
    pytype = str

    def __init__(self, w, i, real):
        self.w, self.i, self.real = w, i, real

    def truth(self, vc):
        return z3.Not(self.w.empty(self.i))

    def eq(self, vc, o):
        if o == '':
            return mk_bool(self.w.empty(self.i))
        raise Unsupported('folder == ' + repr(o))

    def map_terms(self, f):
        return Folder(self.w, f(self.i), self.real)


class Kept(Model):
    """the list of folders that are kept: how many, and whether folder j is among them"""
    pytype = list

    def __init__(self, w, n, has):
        self.w, self.n, self.has = w, n, has

    def m_append(self, vc, folder):
        w = self.w
        vc.prove(isinstance(folder, Folder), 'one of the folders is kept')
        vc.prove(z3.Implies(w.empty(folder.i), z3.BoolVal(not w.archives)), 'the folder of the archive is not used when archives are inside of the mount point')
        vc.prove(z3.Or(w.empty(folder.i), z3.And(z3.BoolVal(folder.real), z3.Not(w.inside(folder.i)))), 'only locations outside of the mount point are used')
        self.n = self.n + 1
        self.has = z3.Or(self.has, folder.i == w.j)
        vc.log_write(self, 'n')

    def truth(self, vc):
        return self.n > 0

    def len(self, vc):
        return mk_int(self.n)

    def a___class__(self, vc):
        return list


def unit_filter(path_kind, folders_given):
    def run(vc):
        class W:
            pass
        w = W()
        w.archives = vc.choose('archives inside')
        w.empty, w.inside = vc.func('empty', I, z3.BoolSort()), vc.func('inside', I, z3.BoolSort())
        w.j = vc.skolem()
        n = vc.nat('folders').z
        options = vc.new(sdict({'lazyMounting': True}))
        me = vc.new(Obj(FuseMount, {'mountPoint': '/mnt'}, 'mount'))
        path = {'none': None, 'empty': '', 'memory': ':memory:', 'local': '/some/index.sqlite', 'file': 'file:///some/index.sqlite',
                'url': 'http://host/index.sqlite', 'chain': 'zip://a::file:///b', 'missing': 0}[path_kind]
        if path_kind != 'missing':
            options.items.append(['indexFilePath', path])
        if folders_given:
            options.items.append(['indexFolders', vc.new(SList(n, lambda i: Folder(w, i, False), mutable=True))])
        path_inside = vc.bool('index file inside')

        def resolve(i, vc, me_, p):
            if isinstance(p, Folder):
                vc.prove(z3.Not(w.empty(p.i)), 'the empty folder is not the current one')
                return None if vc.branch(w.inside(p.i)) else Folder(w, p.i, True)
            vc.prove(p == '/some/index.sqlite', 'the index file')
            return None if vc.branch(path_inside.z) else '/real/index.sqlite'

        allowed = lambda i: z3.If(w.empty(i), z3.BoolVal(not w.archives), z3.Not(w.inside(i)))

        def inv(vc, L):
            kept = L.newIndexFolders
            if isinstance(kept, SList):
                return [('nothing is kept before', z3.BoolVal(kept.items == []))]
            return [('a number', kept.n >= 0),
                    ('folders outside are kept', z3.Implies(z3.And(0 <= w.j, w.j < zi(L.k), allowed(w.j)), kept.has)),
                    ('none without a folder', z3.Implies(kept.has, kept.n > 0)),
                    ('nothing else is kept', z3.Implies(kept.has, z3.And(0 <= w.j, w.j < zi(L.k))))]

        spec = LoopSpec(inv, havoc={'newIndexFolders': lambda vc, L: vc.new(Kept(w, vc.nat('kept').z, vc.bool('has').z)),
                                    'newFolder': None, 'folder': None})
        interp = Interp(vc, contracts={Q + 'FuseMount._resolve_path_outside_fuse_mount': resolve},
                        loops={(Q + 'FuseMount._filter_index_locations_in_fuse_mount', 0): spec})
        kind, r = attempt(lambda: interp.run_function(FuseMount._filter_index_locations_in_fuse_mount, [me, options, w.archives]))
        if kind == 'exc':
            vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
            return
        got = {k: v for k, v in options.items}
        final = got.get('indexFilePath')
        vc.prove(got.get('lazyMounting') is True, 'other options are kept')
        if path_kind == 'memory':
            vc.prove(final == ':memory:', 'indexes in memory stay there')
            return
        if path_kind in ('local', 'file'):
            vc.prove(final in (None, ':memory:', '/real/index.sqlite'), 'the index file')
            vc.prove(z3.Implies(path_inside.z, z3.BoolVal(final != '/real/index.sqlite')), 'an index file inside of the mount point is not used')
            vc.prove(z3.Or(path_inside.z, z3.BoolVal(final == '/real/index.sqlite' or w.archives)), 'an index file outside is kept')
        elif path_kind in ('url', 'chain'):
            vc.prove(final == path or (w.archives and final == ':memory:'), 'a URL is kept')
        if final == ':memory:':
            if folders_given:
                kept = got['indexFolders']
                vc.prove(z3.BoolVal(True) if isinstance(kept, SList) else kept.n == 0, 'memory is only used if no location is left')
            return
        kept = got.get('indexFolders')
        some = z3.BoolVal(False) if not folders_given else kept.n > 0 if isinstance(kept, Kept) else z3.BoolVal(False)
        if w.archives:
            vc.prove(some, 'without a folder the default would be beside the archive, inside of the mount point')
        else:
            vc.prove(z3.Or(some, z3.BoolVal(isinstance(final, str) and final != '')), 'a location is left')
        if folders_given:
            vc.prove(isinstance(kept, Kept), 'folders are filtered')
            vc.prove(z3.Implies(z3.And(0 <= w.j, w.j < n, allowed(w.j)), kept.has), 'every folder outside is kept')
    return Unit(f'index locations[{path_kind},{"folders" if folders_given else "no folders"}]', run, [FuseMount._filter_index_locations_in_fuse_mount])


def sdict(d):
    from pyvc.values import SDict
    return SDict(items=[[k, v] for k, v in d.items()])


# ------------------------------------------------------------------------------------------------ names
def unit_name(vc):
    path = vc.str('path')
    url = vc.choose('URL')
    stripped, base, real = vc.str('without trailing slashes'), vc.str('base'), vc.str('real base')
    no_slash = lambda s: z3.Not(z3.Contains(s, V('/')))
    vc.assume(z3.And(no_slash(base.z), no_slash(real.z), real.z != V('.'), real.z != V('..')))  # basename; realpath is normalized
    vc.assume(z3.Contains(path.z, V('://')) == z3.BoolVal(url))
    realpath = vc.str('real path')

    def basename(vc, p):
        if vc.branch(zs(p) == stripped.z):
            return base
        vc.prove(zs(p) == realpath.z, 'the name is that of the path')
        return real
    vc.assume(stripped.z != realpath.z)

    def resolve(vc, p):
        vc.prove(not url, 'URLs are not looked up in the file system')
        vc.prove(zs(p) == path.z, 'the given path')
        return realpath
    interp = Interp(vc, models={os.path.basename: basename, os.path.realpath: resolve, os.fspath: lambda vc, p: p, ('rstrip', '/'): lambda vc, s: stripped})
    r = interp.run_function(FuseMount._get_subvolume_name, [path])
    vc.prove(z3.And(zs(r) != V(''), no_slash(zs(r)), zs(r) != V('.'), zs(r) != V('..')), 'a usable name')
    vc.prove(z3.Implies(z3.And(base.z != V(''), base.z != V('.'), base.z != V('..')), zs(r) == base.z), 'the name of the file or folder')


class Key(Model):
    """str: name i, with a suffix (0: none)"""
    pytype = str

    def __init__(self, i, suffix=None):
        self.i, self.suffix = i, suffix

    def same(self, o):
        return z3.And(self.i == o.i, (z3.IntVal(0) if self.suffix is None else self.suffix) == (z3.IntVal(0) if o.suffix is None else o.suffix))

    def add(self, vc, o):
        if o == '.' and self.suffix is None:
            return Dotted(self.i)
        raise Unsupported('name + ' + repr(o))

    def radd(self, vc, o):
        if o == '':
            return self
        raise Unsupported('... + name')


class Dotted(Model):
    pytype = str

    def __init__(self, i):
        self.i = i

    def add(self, vc, o):
        if isinstance(o, Number):
            return Key(self.i, o.z)
        raise Unsupported('name. + ' + repr(o))


class Number(Model):
    pytype = str

    def __init__(self, z):
        self.z = z

    def radd(self, vc, o):
        if isinstance(o, Dotted):
            return Key(o.i, self.z)
        raise Unsupported(repr(o) + ' + number')


class Names(Model):
    """the map of names: how many sources it holds, and what was found out about names since the last change"""

    def __init__(self, count, w):
        self.count, self.w, self.absent = count, w, []

    def contains(self, vc, key):
        b = vc.bool('name exists').z
        for k, f in self.absent:
            vc.assume(z3.Implies(k.same(key), f == b))
        self.absent.append((key, b))
        return mk_bool(b)

    def setitem(self, vc, key, source):
        vc.prove(isinstance(key, Key), 'a name')
        known = [z3.Implies(k.same(key), f) for k, f in self.absent]
        vc.prove(z3.Or(*[z3.And(k.same(key), z3.Not(f)) for k, f in self.absent]) if self.absent else False, 'no other source has the name')
        vc.prove(zi(source.i) == key.i, 'a source has its own name')
        vc.prove(zi(source.i) == self.w.turn, 'every source is added')
        vc.prove(z3.BoolVal(True) if key.suffix is None else key.suffix >= 1, 'a proper suffix')
        self.count, self.absent = self.count + 1, []
        vc.log_write(self, 'count')

    def m_setdefault(self, vc, *a):
        raise Unsupported('setdefault')


class Source(Model):
    def __init__(self, i):
        self.i = i

    def map_terms(self, f):
        return Source(f(self.i))


def unit_multi(vc):
    class W:
        pass
    w = W()
    w.turn = z3.IntVal(-1)
    n = vc.nat('sources').z
    union = vc.choose('union')
    sources = SList(n, lambda i: (Key(i), Source(i)), mutable=True)
    captured = []

    def subvolumes(vc, names):
        captured.append(names)
        return 'subvolumes'

    def unite(vc, parts, **options):
        captured.append(parts)
        return 'union'

    def inv(vc, L):
        names = L.submountSources
        w.turn = zi(L.k)
        count = names.count if isinstance(names, Names) else z3.IntVal(len(names.items))
        return [('every source so far is kept', count == zi(L.k)), ('a suffix', zi(L.suffix) >= 1)]

    fn = Q + 'FuseMount._create_multi_mount'
    loops = {(fn, 0): LoopSpec(inv, havoc={'submountSources': lambda vc, L: vc.new(Names(vc.nat('count').z, w)), 'suffix': lambda vc, L: vc.nat('suffix'),
                                          'key': None, 'mountSource': None}),
             (fn, 1): LoopSpec(lambda vc, L: [('a suffix', zi(L.suffix) >= 1)], havoc={'suffix': lambda vc, L: vc.nat('suffix')})}
    interp = Interp(vc, loops=loops, models={mod.SubvolumesMountSource: subvolumes, mod.UnionMountSource: unite,
                                            'format': lambda vc, x, spec: x if isinstance(x, Key) else Number(zi(x))})
    options = vc.new(sdict({'disableUnionMount': not union}))
    r = interp.run_function(FuseMount._create_multi_mount, [sources, options])
    vc.prove(r == ('union' if union else 'subvolumes'), 'as chosen by the options')
    if union:
        parts = captured[0]
        vc.prove(parts.length == n, 'all sources are merged')
        k = vc.skolem()
        vc.assume(z3.And(0 <= k, k < n))
        vc.prove(parts.elem(k).i == k, 'sources are merged in order')
        return
    names = captured[0]
    vc.prove((names.count if isinstance(names, Names) else z3.IntVal(len(names.items))) == n, 'no source is lost')


UNITS = [
    Unit('split_command_line', unit_split, [split_command_line]),
    Unit('split_command_line[refused]', unit_command, [split_command_line]),
    Unit('_path_provided_by_us', unit_provided, [FuseMount._path_provided_by_us]),
    Unit('_resolve_path_outside_fuse_mount', unit_resolve, [FuseMount._resolve_path_outside_fuse_mount]),
    *[unit_filter(p, f) for p in ('missing', 'none', 'empty', 'memory', 'local', 'file', 'url', 'chain') for f in (True, False)],
    Unit('_get_subvolume_name', unit_name, [FuseMount._get_subvolume_name]),
    Unit('_create_multi_mount', unit_multi, [FuseMount._create_multi_mount]),
]


# ------------------------------------------------------------------------------------------------ bounded runs
def quiet():
    c17.quiet()
    logging.disable(logging.CRITICAL)


def run_commands(ctx):
    quiet()
    rng = ctx.rng
    alphabet = [b'a', b'-', b'ratarmount', b' ', b'\n', b'\0', b'\xff', b'\xc3\xa4', b'\xc3', b'/', b'"', b"'", b'\\', b'\r', b'\t']
    while not ctx.out_of_time():
        delimiter = rng.choice([b'\0', b'\n', b' '])
        arguments = [b''.join(x for x in (rng.choice(alphabet) for _ in range(rng.randrange(0, 5))) if x != delimiter) for _ in range(rng.randrange(0, 6))]
        echo = delimiter == b' ' and rng.random() < .5
        if delimiter == b' ' and not echo and arguments and arguments[-1].endswith(b'\n'):
            continue
        command = b'ratarmount' + (delimiter + delimiter.join(arguments) if arguments else b'') + (b'\n' if echo and arguments else b'')
        with ctx.case({'command': command}) as c:
            want = [os.fsdecode(a) for a in arguments]
            c.equal(split_command_line(command), want, 'the arguments')
            got = []
            f = CommandFile(got.append)
            i = 0
            while i < len(command):
                k = rng.randrange(1, len(command) - i + 1)
                c.equal(f.write(command[i:i + k]), k, 'everything is taken')
                i += k
                c.equal(f.tell(), i, 'the position')
            f.close()
            f.close()
            c.equal(got, [want], 'the command is called once with its arguments')


class Marked(SingleFileMountSource):
    def __init__(self, number):
        super().__init__(f'source {number}', io.BytesIO(b'%d' % number))


def run_names(ctx):
    quiet()
    rng = ctx.rng
    names = ['a', 'a.1', 'a.2', 'b', 'a.1.1', 'b.1', 'root', '.a', 'a b', 'ä']
    while not ctx.out_of_time():
        given = [rng.choice(names[:rng.randrange(1, len(names) + 1)]) for _ in range(rng.randrange(2, 9))]
        union = rng.random() < .2
        with ctx.case({'names': given, 'union': union}) as c:
            m = FuseMount._create_multi_mount([(n, Marked(i)) for i, n in enumerate(given)], {'disableUnionMount': not union})
            top = m.list('/')
            if union:
                c.equal(sorted(top), sorted(f'source {i}' for i in range(len(given))), 'the contents of all sources')
                continue
            c.equal(len(top), len(given), 'every source has a folder', folders=sorted(top))
            found = {}
            for folder in top:
                for f in m.list('/' + folder) or ():
                    found[int(f.split()[1])] = folder
            c.equal(sorted(found), list(range(len(given))), 'every source is mounted', found=found)
            first = {}
            for i, n in enumerate(given):
                name = found.get(i)
                c.check(name is not None and (name == n or name.startswith(n + '.') and name[len(n) + 1:].isdigit()), 'a source has its own name, or that with a number', name=name, of=n)


def run_mounts(ctx):
    """whole mounts of folders and archives given in unusual ways"""
    quiet()
    rng = ctx.rng
    here = os.getcwd()
    while not ctx.out_of_time():
        tmp = os.path.realpath(ctx.tmp())
        made = []
        for i in range(rng.randrange(1, 5)):
            parent = os.path.join(tmp, rng.choice(['', 'p', 'q', 'p/q']))
            folder = os.path.join(parent, rng.choice(['a', 'b', 'a.1']))
            if folder in [f.removesuffix('.tar') for f, _ in made] or any(f.startswith(folder + '/') or folder.startswith(f + '/') for f, _ in made):
                continue
            os.makedirs(folder)
            with open(os.path.join(folder, f'source {i}'), 'wb') as f:
                f.write(b'%d' % i)
            if rng.random() < .3:
                with tarfile.open(folder + '.tar', 'w') as t:
                    t.add(os.path.join(folder, f'source {i}'), f'source {i}')
                shutil.rmtree(folder)
                folder += '.tar'
            made.append((folder, i))
        mp = os.path.join(tmp, 'mp')
        os.mkdir(mp)
        os.chdir(made[0][0] if os.path.isdir(made[0][0]) else tmp)
        given = []
        for folder, i in made:
            ways = [folder, os.path.relpath(folder)]
            if os.path.isdir(folder):
                ways += [folder + '/', folder + '//', folder + '/.', os.path.relpath(folder) + '/', folder + '/../' + os.path.basename(folder)]
            given.append(rng.choice(ways))
        options = {'disableUnionMount': rng.random() < .7, 'controlInterface': rng.random() < .4, 'lazyMounting': rng.random() < .3,
                   'recursive': rng.random() < .3, 'indexFilePath': ':memory:'}
        try:
            with ctx.case({'given': [g.replace(tmp, '') for g in given], 'cwd': os.getcwd().replace(tmp, ''), 'options': options}) as c:
                with FuseMount(list(given), mp, **options) as m:
                    listing = lambda p: [x if isinstance(x, str) else x[0] for x in m.readdir(p, 0) if x not in ('.', '..') and (isinstance(x, str) or x[0] not in ('.', '..'))]
                    top = [x for x in listing('/')]
                    control = [x for x in top if x == '.ratarmount-control']
                    c.equal(bool(control), options['controlInterface'], 'the control interface', top=top)
                    top = [x for x in top if x != '.ratarmount-control']
                    if not options['disableUnionMount'] or len(given) == 1 and not options['controlInterface']:
                        c.equal(sorted(top), sorted(f'source {i}' for _, i in made), 'the contents of all sources')
                        for _, i in made:
                            c.equal(m.getattr(f'/source {i}')['st_size'], len(str(i)), 'a file of a source')
                    else:
                        c.equal(len(top), len(given), 'every source has a folder', folders=sorted(top))
                        found = sorted(f for x in top for f in listing('/' + x))
                        c.equal(found, sorted(f'source {i}' for _, i in made), 'every source is mounted', folders=sorted(top))
                    if options['controlInterface']:
                        c.equal(sorted(listing('/.ratarmount-control')), ['command', 'output'], 'the control files')
        finally:
            os.chdir(here)
        shutil.rmtree(tmp)


def run_locations(ctx):
    quiet()
    rng = ctx.rng
    here, home = os.getcwd(), os.environ.get('HOME')
    while not ctx.out_of_time():
        tmp = os.path.realpath(ctx.tmp())
        mp, out = tmp + '/mnt/mp', tmp + '/out'
        for d in (mp + '/sub', out + '/sub', tmp + '/mnt/mp2', mp + '/~', out + '/~'):
            os.makedirs(d)
        os.symlink(mp, out + '/link')
        os.symlink(mp + '/sub', out + '/deep')
        os.symlink(out, mp + '/outwards')
        cwd = rng.choice([tmp, mp, out, mp + '/sub', tmp + '/mnt'])
        os.chdir(cwd)
        os.environ['HOME'] = rng.choice([mp, out, mp + '/sub', tmp])
        os.environ['XDG_CACHE_HOME'] = tmp + '/cache'
        places = [mp, mp + '/', mp + '/sub', mp + '/new/new', out, out + '/link', out + '/link/x', out + '/deep', out + '/../mnt/mp', '/' + mp, '/' + out, tmp + '/mnt/mp2', mp + '2', out + '/sub',
                  '~', '~/x', '.', '..', 'x', 'sub', '../mp', '../mp/x', mp + '/../mp2', out + '/link/../mp2', './sub/../..', '', '']
        folders = [rng.choice(places) for _ in range(rng.randrange(0, 5))]
        file = rng.choice([None, None, '', ':memory:', 'http://host/x', *[('file://' if rng.random() < .3 and p.startswith('/') else '') + os.path.join(p, 'i.sqlite') for p in rng.choices(places[:-2], k=3)]])
        archives = rng.random() < .5
        options = {'indexFolders': list(folders), 'writeIndex': True, 'hashes': ['md5']}
        if file is not None or rng.random() < .5:
            options['indexFilePath'] = file
        strip = lambda x: x.replace(tmp, '') if isinstance(x, str) else x
        try:
            with ctx.case({'folders': [strip(f) for f in folders], 'file': strip(file), 'archives inside': archives, 'cwd': strip(cwd), 'home': strip(os.environ['HOME'])}) as c:
                m = object.__new__(FuseMount)
                m.mountPoint = os.path.realpath(mp)
                m._filter_index_locations_in_fuse_mount(options, archives)
                c.equal(options.get('hashes'), ['md5'], 'other options')
                archive = (mp if archives else out) + '/a.tar'
                inside = lambda p: '://' not in p.removeprefix('file://') and (os.path.realpath(p.removeprefix('file://')) + '/').startswith(mp + '/')
                got = SQLiteIndex.get_possible_index_file_paths(options.get('indexFilePath'), options.get('indexFolders'), archive)
                c.check(not any(inside(p) for p in got if p != ':memory:'), 'no index location inside of the mount point is used', got=[strip(g) for g in got], options=strip(repr(options)))
                if archives and options.get('indexFilePath') != ':memory:':  # nested archives are opened without the index file
                    got = SQLiteIndex.get_possible_index_file_paths(None, options.get('indexFolders'), archive)
                    c.check(not any(inside(p) for p in got if p != ':memory:'), 'no index location inside of the mount point is used for nested archives', got=[strip(g) for g in got])
                if file != ':memory:':
                    resolved = [os.path.realpath(os.path.abspath(os.path.expanduser(f))) for f in folders if f]
                    want = [f for f in resolved if not inside(f)]
                    lexical = [f for f in folders if f and (os.path.abspath(os.path.expanduser(f)).replace('//', '/') + '/').startswith(mp + '/')]
                    if not lexical:  # links inside of the mount point are not followed
                        c.equal([f for f in options['indexFolders'] if f], want, 'folders outside are kept in order')
                    c.check(all(f in want for f in options['indexFolders'] if f), 'only given folders are used')
                if file == ':memory:':
                    c.equal(options.get('indexFilePath'), ':memory:', 'indexes in memory stay there')
        finally:
            os.chdir(here)
            os.environ.pop('XDG_CACHE_HOME', None)
            if home is None:
                os.environ.pop('HOME', None)
            else:
                os.environ['HOME'] = home
        shutil.rmtree(tmp)


def run_self(ctx):
    """a folder of archives mounted lazily onto itself: indexes are never created in it"""
    quiet()
    rng = ctx.rng
    here, home = os.getcwd(), os.environ.get('HOME')
    while not ctx.out_of_time():
        tmp = os.path.realpath(ctx.tmp())
        mp, out = tmp + '/mp', tmp + '/out'
        os.makedirs(mp + '/sub')
        os.makedirs(out)
        for p in ('/x.tar', '/sub/y.tar.gz'):
            with tarfile.open(mp + p, 'w:gz' if p.endswith('gz') else 'w') as t:
                for i in range(3):
                    info = tarfile.TarInfo(f'f{i}')
                    info.size = 3
                    t.addfile(info, io.BytesIO(b'abc'))
        os.environ['HOME'] = rng.choice([mp, out])
        os.chdir(rng.choice([mp, out, tmp]))
        options = {'lazyMounting': True, 'recursive': True, 'indexFolders': rng.choice([['', '~/.ratarmount'], [''], [mp + '/sub', ''], ['~'], [out, ''], ['', 'indexes'], [], None])}
        if rng.random() < .4:
            options['indexFilePath'] = rng.choice([mp + '/i.sqlite', out + '/i.sqlite', ':memory:', 'i.sqlite', '~/i.sqlite', None])
        if options['indexFolders'] is None:
            del options['indexFolders']
        given = rng.choice([mp, mp + '/', os.path.relpath(mp)])
        try:
            with ctx.case({'options': {k: str(v).replace(tmp, '') for k, v in options.items()}, 'cwd': os.getcwd().replace(tmp, ''), 'home': os.environ['HOME'].replace(tmp, ''), 'given': given.replace(tmp, '')}) as c:
                all_files = lambda: sorted(os.path.relpath(os.path.join(d, f), mp) for d, _s, fs in os.walk(mp) for f in fs)
                before = all_files()
                with FuseMount([given], mp, **options) as m:
                    for p in ('/x.tar/f1', '/sub/y.tar.gz/f2'):
                        c.equal(m.getattr(p)['st_size'], 3, 'a file of a nested archive')
                    c.equal(all_files(), before, 'nothing is created in the mount point')
                c.equal(all_files(), before, 'nothing is created in the mount point')
        finally:
            os.chdir(here)
            if home is None:
                os.environ.pop('HOME', None)
            else:
                os.environ['HOME'] = home
        shutil.rmtree(tmp)


ORACLES = [
    Oracle('commands', run_commands, [split_command_line, CommandFile.write, CommandFile.close], 'random commands of at most 5 arguments with any bytes, written in pieces', 5, 60),
    Oracle('names', run_names, [FuseMount._create_multi_mount, SubvolumesMountSource.mount], 'up to 8 sources with names from a set of 10 that collide with each other and with suffixes', 5, 60),
    Oracle('mounts', run_mounts, [FuseMount.__init__, FuseMount._create_multi_mount], 'up to 4 folders and archives given as absolute, relative and unusual paths', 20, 120),
    Oracle('index locations', run_locations, [FuseMount._filter_index_locations_in_fuse_mount, FuseMount._path_provided_by_us], 'up to 4 index folders and an index file from 30 spellings of places inside and outside', 10, 90),
    Oracle('lazy self mount', run_self, [FuseMount.__init__, FuseMount._filter_index_locations_in_fuse_mount], 'a folder with two archives mounted onto itself with drawn index options', 15, 90),
]

ASSUMPTIONS = [
    'bytes.split undoes bytes.join for at least one argument without the delimiter; os.path.normpath, realpath, abspath and basename have their documented results',
    'control command lines carry at least one argument after the delimiter; a single trailing newline after space-separated arguments is that of echo',
    'links from outside of the mount point to its inside given as dynamic mount inputs are not recognised before they are opened (only index locations are resolved)',
]
