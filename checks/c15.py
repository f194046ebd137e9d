"""Contracts for the recursive mounting layer, and runs on random nested archives."""
import gzip
import io
import os
import stat
import tarfile
import zipfile

import z3

from checks.common import quiet
from checks.compose import state
from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp, LoopSpec
from pyvc.ops import mk_bool
from pyvc.values import Host, Model, Obj, PyRaise, SBool, SDict, SInt, SList, SStr, Unsupported, Val, zb, zi, zs
from ratarmountcore.mountsource import FileInfo, MountSource
from ratarmountcore.mountsource.compositing import automount
from ratarmountcore.mountsource.compositing.automount import AutoMountLayer
from ratarmountcore.mountsource.factory import open_mount_source
from ratarmountcore.mountsource.formats.folder import FolderMountSource
from ratarmountcore.utils import create_folder_from_file_permissions

AQ = 'ratarmountcore.mountsource.compositing.automount:'
Q = AQ + 'AutoMountLayer.'
S, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()
V = z3.StringVal
KINDS = {'tar': '.tar', 'zip': '.zip', 'tgz': '.tar.gz'}


# ------------------------------------------------------------------------------------------------ runs
def random_nest(rng, depth, label='', top=True):
    """{name: bytes or (kind, tree) or a folder as dict}"""
    out = {}
    for k in range(rng.randrange(1, 5)):
        r = rng.random()
        if depth > 0 and r < .45:
            kind = rng.choice(['tar', 'tar', 'zip', 'tgz'])
            out[f'r{k}{KINDS[kind]}'] = (kind, random_nest(rng, depth - 1, f'{label}{k}', top=False))
        elif r < .6:
            out[f'd{k}' + rng.choice(['', '', '.tar', '.001', '.1', '.zip'])] = random_nest(rng, depth - 1, f'{label}{k}', top=False) if depth > 0 else {}
        elif r < .7:
            out[f'bad{k}' + rng.choice(['.tar', '.zip', '.tar.gz'])] = b'\x80\x81nonsense' * rng.randrange(1, 200)
        else:
            out[f'f{k}'] = f'contents {label}{k}'.encode() * rng.randrange(0, 4)
    return out


def pack(kind, tree):
    flat = []

    def walk(t, at):
        for n, v in t.items():
            if isinstance(v, dict):
                flat.append((at + n, None))
                walk(v, at + n + '/')
            else:
                flat.append((at + n, pack(*v) if isinstance(v, tuple) else v))
    walk(tree, '')
    b = io.BytesIO()
    if kind == 'zip':
        with zipfile.ZipFile(b, 'w') as z:
            for n, v in flat:
                z.writestr(zipfile.ZipInfo(n + ('/' if v is None else ''), (2001, 2, 3, 4, 5, 6)), v or b'')
        return b.getvalue()
    with tarfile.open(fileobj=b, mode='w', format=tarfile.GNU_FORMAT) as t:
        for n, v in flat:
            i = tarfile.TarInfo(n)
            if v is None:
                i.type, i.mode = tarfile.DIRTYPE, 0o755
                t.addfile(i)
            else:
                i.size = len(v)
                t.addfile(i, io.BytesIO(v))
    return gzip.compress(b.getvalue(), mtime=0) if kind == 'tgz' else b.getvalue()


def unpack(tree, folder):
    for n, v in tree.items():
        p = os.path.join(folder, n)
        if isinstance(v, dict):
            os.mkdir(p)
            unpack(v, p)
        else:
            with open(p, 'wb') as f:
                f.write(pack(*v) if isinstance(v, tuple) else v)


def stripped(name):
    return name.split('.')[0]


def expected(tree, allowed, strip):
    """what should be visible: {name: bytes or dict}; allowed: how many more levels may be mounted"""
    out = {}
    for n, v in tree.items():
        if isinstance(v, dict):
            out[n] = expected(v, allowed, strip)
        elif isinstance(v, tuple) and allowed > 0:
            if v[0] == 'tgz' and allowed == 1:  # the compression is a level of its own
                inside = {n[:-3]: pack('tar', v[1])}
            else:
                inside = expected(v[1], allowed - (2 if v[0] == 'tgz' else 1), strip)
            out[stripped(n) if strip else n] = inside
        else:
            out[n] = pack(*v) if isinstance(v, tuple) else v
    return out


def check_tree(c, m, tree, at, want, strip, lazy):
    """everything expected is there and nothing else, archives that are mounted elsewhere aside"""
    if lazy and strip:
        for n in tree:
            m.lookup(at.rstrip('/') + '/' + n)  # lazily mounted archives show when they are touched
    info = m.lookup(at)
    c.check(info is not None and stat.S_ISDIR(info.mode), 'folders and mounted archives are folders', path=at)
    listed = {method: getattr(m, method)(at) for method in ('list', 'list_mode')}
    for method, names in listed.items():
        if names is None and not want:
            continue  # an indexed archive does not tell empty folders from missing ones
        if names is None:
            c.check(False, 'folders and mounted archives can be listed', path=at, method=method)
        got = set(names) - (set(tree) - set(want) if strip else set())
        c.equal(sorted(got), sorted(want), 'folders list exactly what they have', path=at, method=method)
    for n, v in want.items():
        p = at.rstrip('/') + '/' + n
        orig = n if n in tree else next(k for k in tree if stripped(k) == n)
        node = tree[orig]
        if isinstance(v, dict):
            inner = node[1] if isinstance(node, tuple) else node
            if isinstance(node, tuple) and node[0] == 'tgz' and list(v) == [orig[:-3]] and v[orig[:-3]] == pack('tar', node[1]):
                inner = v
            check_tree(c, m, inner, p, v, strip, lazy)
        else:
            info = m.lookup(p)
            c.check(info is not None and stat.S_ISREG(info.mode), 'what is no mounted archive is a file', path=p)
            c.check(m.list(p) is None and m.list_mode(p) is None, 'files cannot be listed', path=p)
            before = state(info)
            with m.open(info) as f:
                c.equal(f.read(), v, 'files have their contents', path=p)
            c.equal(m.read(info, 7, 2), v[2:9], 'files have their contents', path=p)
            c.equal(state(info), before, 'using an entry does not change it', path=p)
            c.equal(m.versions(p), 1, 'files have one version', path=p)
            c.check(m.lookup(p, 1) is not None and m.lookup(p, 2) is None and m.lookup(p + 'x') is None and m.lookup(p + '/x') is None, 'nothing else exists', path=p)
        for method, names in listed.items():
            if not isinstance(names, dict) or (lazy and isinstance(node, tuple)):
                continue
            mode = names[n] if method == 'list_mode' else names[n].mode
            c.check(stat.S_ISDIR(mode) == isinstance(v, dict), 'listed types are those looked up', path=p, method=method, mode=oct(mode))


def run_nested(ctx):
    quiet()
    for _ in range(ctx.budget(700, 9000)):
        if ctx.out_of_time():
            return
        tree = random_nest(ctx.rng, ctx.rng.randrange(1, 5))
        depth = ctx.rng.choice([0, 1, 1, 2, 2, 3, None])
        lazy, strip, outer = ctx.rng.random() < .3, ctx.rng.random() < .25, ctx.rng.choice(['folder', 'folder', 'tar'])
        with ctx.case({'tree': tree, 'depth': depth, 'lazy': lazy, 'strip': strip, 'outer': outer}) as c:
            options = {'lazyMounting': lazy, 'stripRecursiveTarExtension': strip, 'indexFilePath': ':memory:'}
            options.update({'recursive': True} if depth is None else {'recursionDepth': depth})
            if True:
                tmp = ctx.tmp()
                if outer == 'folder':
                    os.mkdir(tmp + '/t')
                    unpack(tree, tmp + '/t')
                    source = FolderMountSource(tmp + '/t')
                else:
                    with open(tmp + '/t.tar', 'wb') as f:
                        f.write(pack('tar', tree))
                    source = open_mount_source(tmp + '/t.tar', **options)
                m = AutoMountLayer(source, **options)
                if lazy:
                    walk = [p for p in all_names(tree)]
                    ctx.rng.shuffle(walk)
                    for p in walk[:5]:
                        m.lookup(p)
                check_tree(c, m, tree, '/', expected(tree, 99 if depth is None else depth, strip), strip, lazy)
                if outer == 'folder':
                    check_originals(c, m, tree, '', 99 if depth is None else depth, strip)
                m.__exit__(None, None, None)


def all_names(tree, at=''):
    for n, v in tree.items():
        yield at + '/' + n
        if not isinstance(v, bytes):
            yield from all_names(v[1] if isinstance(v, tuple) else v, at + '/' + n)


def check_originals(c, m, tree, at, depth, strip):
    for n, v in tree.items():
        if isinstance(v, dict):
            check_originals(c, m, v, at + '/' + n, depth, strip)
        if isinstance(v, tuple) and depth > 0:
            p = at + '/' + n
            if not strip:
                c.equal(m.versions(p), 2, 'a mount point has the archive as an older version', path=p)
            info = m.lookup(p, 1)
            c.check(info is not None and stat.S_ISREG(info.mode), 'the original archive is the oldest version', path=p)
            with m.open(info) as f:
                c.equal(f.read(), pack(*v), 'the original archive keeps its contents', path=p)
            if not strip:
                for version in (0, 2):
                    c.check(stat.S_ISDIR(m.lookup(p, version).mode), 'the newest version of a mount point is the folder', path=p, version=version)
                c.check(m.lookup(p, 3) is None and m.lookup(p, -2) is None, 'there are no other versions', path=p)


def run_split(ctx):
    """a split archive in a folder is mounted as a whole"""
    quiet()
    for size, folder in ((1000, ''), (4000, 'sub/'), (513, 'sub/')):
        data = pack('tar', {'a': b'contents' * 100, 'd': {'b': b'more'}})
        parts = [data[k:k + size] for k in range(0, len(data), size)]
        with ctx.case({'size': size, 'folder': folder}) as c:
            tmp = ctx.tmp()
            os.makedirs(tmp + '/t/' + folder)
            for k, p in enumerate(parts):
                with open(f'{tmp}/t/{folder}x.tar.{k:03}', 'wb') as f:
                    f.write(p)
            m = AutoMountLayer(FolderMountSource(tmp + '/t'), recursive=True, indexFilePath=':memory:', stripRecursiveTarExtension=True)
            point = f'/{folder}x.tar'
            names = m.list(point)
            c.check(names is not None, 'a split archive is mounted', path=point)
            found = []

            def walk(p):
                i = m.lookup(p)
                if stat.S_ISDIR(i.mode):
                    for n in m.list(p) or ():
                        walk(p.rstrip('/') + '/' + n)
                else:
                    with m.open(i) as f:
                        found.append(f.read())
            walk(point)
            c.check(any(x == b'more' for x in found) or any(x == data for x in found), 'a split archive is joined', found=[len(x) for x in found])
            m.__exit__(None, None, None)


# ------------------------------------------------------------------------------------------------ proofs
class Path:
    """any absolute path without a trailing slash: the slash-terminated components part(0) to part(n-1)"""

    def __init__(self, vc):
        self.vc, self.n = vc, vc.nat('components')
        self.mounted = vc.func('mounted', I, B)  # whether the leading k components name a mount point
        vc.assume(self.n.z >= 1)


class Lead(Model):
    """the first k components, each with a slash before it"""
    pytype = str

    def __init__(self, p, k):
        self.p, self.k = p, z3.simplify(zi(k))

    def contains(self, vc, x):
        if x != '/':
            raise Unsupported('search in a path')
        return SBool(self.k >= 1)

    def m_rsplit(self, vc, sep, maxsplit=-1):
        if sep != '/' or maxsplit != 1:
            raise Unsupported('split of a path')
        if not vc.branch(self.k >= 1):
            return vc.new(SList(items=['']))
        return vc.new(SList(items=[Lead(self.p, self.k - 1), Part(self.p, self.k - 1)]))

    def m_startswith(self, vc, x):
        if x != '/':
            raise Unsupported('prefix of a path')
        return SBool(self.k >= 1)

    def m_rpartition(self, vc, sep):
        if sep != '/':
            raise Unsupported('split of a path')
        return (Lead(self.p, self.k - 1), '/', Part(self.p, self.k - 1))

    def encode_key(self):
        raise Unsupported('path as a key')


class Part(Model):
    pytype = str

    def __init__(self, p, i):
        self.p, self.i = p, z3.simplify(i)


class Parts(Model):
    """the list of the components from lo to the end"""
    pytype = list

    def __init__(self, p, lo):
        self.p, self.lo = p, lo

    def m_insert(self, vc, at, x):
        if at != 0 or not isinstance(x, Part):
            raise Unsupported('insertion')
        vc.prove(x.i == self.lo - 1, 'the rest of the path is collected in order')
        vc.log_write(self)
        self.lo = z3.simplify(self.lo - 1)


class Mounted(Model):
    pytype = dict

    def __init__(self, p):
        self.p = p

    def contains(self, vc, key):
        if isinstance(key, str):
            return key == '/'
        if not isinstance(key, Lead):
            raise Unsupported('a mount point')
        return SBool(self.p.mounted(key.k))


def unit_simply_find(vc):
    """the deepest mount point that is an ancestor of (or is) the path, and the rest of the path"""
    p = Path(vc)
    path = Lead(p, p.n.z)
    self = vc.new(Obj(AutoMountLayer, {'mounted': Mounted(p)}, 'self'))
    j = vc.skolem('j')

    def join(vc, seq):
        if isinstance(seq, Parts):
            return ('rest', seq.lo)
        if isinstance(seq, SList) and seq.items == []:
            return ('rest', p.n.z)
        raise Unsupported('join')

    class Rest(Model):
        pytype = str

        def __init__(self, lo):
            self.lo = lo

        def radd(self, vc, other):
            if other != '/':
                raise Unsupported('concatenation')
            return ('absolute', self.lo)

    models = {('join', '/'): lambda vc, seq: Rest(join(vc, seq)[1])}

    def inv(vc, L):
        left, right = L.leftPart, L.rightParts
        if isinstance(right, SList) and right.items == []:
            lo = p.n.z
        elif isinstance(right, Parts):
            lo = right.lo
        else:
            raise Unsupported('the rest of the path')
        if not isinstance(left, Lead):
            raise Unsupported('the left part')
        return [('the two parts are the path', z3.And(left.k >= 0, left.k <= p.n.z, lo == left.k)),
                ('no deeper mount point is skipped', z3.Implies(z3.And(j > left.k, j <= p.n.z), z3.Not(p.mounted(j))))]

    def havoc_left(vc, L):
        return Lead(p, vc.int('k').z)

    interp = Interp(vc, loops={(Q + '_simply_find_mounted', 0): LoopSpec(inv, havoc={'leftPart': havoc_left, 'rightParts': lambda vc, L: Parts(p, vc.int('lo').z)}, decreases=lambda vc, L: SInt(L.leftPart.k))}, models=models)
    kind, r = attempt(lambda: interp.run_function(AutoMountLayer._simply_find_mounted, [self, path]))
    if kind == 'exc':
        vc.prove(False, 'there always is a mount point')
        return
    point, rest = r
    if isinstance(point, Lead):
        vc.prove(z3.And(p.mounted(point.k), point.k >= 1), 'a mount point is found')
        vc.prove(z3.Implies(z3.And(j > point.k, j <= p.n.z), z3.Not(p.mounted(j))), 'the deepest mount point is found')
        vc.prove(isinstance(rest, tuple) and rest[0] == 'absolute', 'the rest of the path is absolute')
        vc.prove(rest[1] == point.k, 'the rest is what follows the mount point')
    else:
        vc.prove(point == '/' and rest is path, 'otherwise the path belongs to the root')
        vc.prove(z3.Implies(z3.And(j >= 1, j <= p.n.z), z3.Not(p.mounted(j))), 'the root serves only what no mount point does')


def same(a, b):
    return a is b or (isinstance(a, str) and isinstance(b, str) and a == b)


class Source(Model):
    pytype = MountSource

    def __init__(self, name, count, path, log):
        self.name, self.count, self.path, self.log = name, count, path, log

    def m_versions(self, vc, path):
        vc.prove(same(path, self.path), 'the version count asked for is that of the path in the source')
        return self.count

    def m_lookup(self, vc, path, fileVersion=0):
        self.log.append((self.name, path, fileVersion))
        return self.entry


class MountTable(Model):
    pytype = dict

    def __init__(self, root, point, infos):
        self.root, self.point, self.infos = root, point, infos

    def getitem(self, vc, key):
        return self.infos['/'] if isinstance(key, str) and key == '/' else self.infos['m']


def setting(vc):
    """a path that is a mount point, or is below one, or belongs to the root source"""
    where = ('mount point', 'below', 'root source', 'the root')[vc.pick(4, 'where the path is')]
    log = []
    path = '/' if where == 'the root' else vc.str('path')
    inside = {'mount point': '/', 'below': vc.str('rest'), 'root source': path, 'the root': '/'}[where]
    point = '/' if where in ('root source', 'the root') else vc.str('mountPoint')
    if isinstance(point, SStr):
        vc.assume(point.z != V('/'))
    if isinstance(inside, SStr):
        vc.assume(inside.z != V('/'))
    if isinstance(path, SStr):
        vc.assume(path.z != V('/'))
    n, m = vc.nat('versions in the root source'), vc.nat('versions in the mounted source')
    entry = vc.new(Obj(FileInfo, {'userdata': vc.new(SList(items=['of the source'])), 'mode': 1}, 'entry')) if vc.choose('it is found') else None
    root, mounted = Source('root', n, path, log), Source('mounted', m, inside, log)
    root.entry = mounted.entry = entry
    infos = {}
    for k, s in (('/', root), ('m', mounted)):
        info = vc.new(Obj(FileInfo, {'userdata': vc.new(SList(items=['root info']))}, 'rootFileInfo'))
        infos[k] = vc.new(Obj(None, {'mountSource': s, 'rootFileInfo': info, 'recursionDepth': 0}, 'mountInfo'))
    self = vc.new(Obj(AutoMountLayer, {'mounted': MountTable(root, point, infos)}, 'self'))
    find = {Q + '_find_mounted': lambda i, vc, s, p: (point, inside)}
    return where, log, path, inside, point, n, m, entry, infos, self, find


def unit_versions(vc):
    where, log, path, inside, point, n, m, entry, infos, self, find = setting(vc)
    interp = Interp(vc, contracts=find)
    kind, r = attempt(lambda: interp.run_function(AutoMountLayer.versions, [self, path]))
    vc.prove(kind == 'ok', 'a query does not fail')
    if kind == 'ok':
        vc.prove(zi(r) == {'mount point': n.z + m.z, 'below': m.z, 'root source': n.z, 'the root': n.z}[where], 'the versions of a mount point are those of the mounted source and of the archive')


def unit_lookup(vc):
    where, log, path, inside, point, n, m, entry, infos, self, find = setting(vc)
    version = vc.int('version')
    v = version.z
    total = {'mount point': n.z + m.z, 'below': m.z, 'root source': n.z, 'the root': n.z}[where]
    cloned = []

    def clone(i, vc, s):
        cloned.append((s, vc.new(Obj(FileInfo, {'userdata': vc.new(SList(items=list(s.fields['userdata'].items)))}, 'clone'))))
        return cloned[-1][1]

    if where in ('mount point', 'the root'):
        vc.assume(m.z == 1 if where == 'mount point' else n.z == 1)  # a root folder has one version
    interp = Interp(vc, contracts={**find, Q + 'versions': lambda i, vc, s, p: SInt(total), 'ratarmountcore.mountsource.MountSource:FileInfo.clone': clone})
    kind, r = attempt(lambda: interp.run_function(AutoMountLayer.lookup, [self, path, version]))
    vc.prove(kind == 'ok', 'a query does not fail')
    if kind != 'ok':
        return
    if cloned:
        vc.prove(where in ('mount point', 'the root'), 'only mount points show as their root folder')
        vc.prove(r is cloned[0][1] and cloned[0][0] is infos['/' if where == 'the root' else 'm'].fields['rootFileInfo'] and not log, 'a mount point is shown as its own root folder')
        vc.prove(z3.Or(v == 0, v == total, v == -total), 'only the newest version of a mount point is its folder')
        return
    if not log:
        vc.prove(r is None, 'an entry comes from a source')
        vc.prove(z3.And(total > 1, z3.Or(v > total, v <= -total)), 'versions that exist are looked up')
        return
    vc.prove(len(log) == 1, 'one source is asked')
    name, asked, ver = log[0]
    ver = zi(ver)
    if where == 'mount point':
        vc.prove(z3.Implies(total > 1, v != 0), 'the newest version of a mount point is its folder')
        # the original archive: versions 1 to n count from the oldest, 0 and n are the newest of it
        older = z3.If(v > 0, v, v + total)
        want = z3.And(z3.BoolVal(name == 'root' and asked is path), z3.Or(ver == older, z3.And(older == n.z, ver == 0)))
        vc.prove(z3.Implies(z3.And(older >= 1, older <= n.z, v > -total, v < total), want), 'older versions of a mount point are those of the archive')
        vc.prove(z3.Implies(z3.BoolVal(name == 'mounted'), n.z == 0), 'older versions of a mount point are those of the archive')
    else:
        source = 'root' if where in ('root source', 'the root') else 'mounted'
        count = n.z if source == 'root' else m.z
        vc.prove(name == source and same(asked, inside), 'the deepest mounted source is asked for the rest of the path')
        pos = z3.If(v > 0, v, v + count)
        got = z3.If(ver > 0, ver, ver + count)
        vc.prove(z3.If(count > 1, got == pos, ver == v), 'the version asked for is looked up')
    vc.prove(r is entry, 'the entry of the source is returned')
    if entry is not None:
        items = entry.fields['userdata'].items
        expect = '/' if name == 'root' else point
        vc.prove(len(items) == 2 and items[0] == 'of the source' and same(items[1], expect), 'the entry remembers the mount point of its source')


def unit_try_mount(strip, join_split):
    """_try_to_mount_file: either nothing changes, or exactly one mount point is added, within the depth, for a source that could be opened"""
    def run(vc):
        path = vc.str('path')
        short = vc.str('stripped')
        depth, maximum = vc.int('depth'), vc.int('maximum')
        already = vc.choose('already mounted')
        found = vc.choose('the archive is found')
        is_istar = vc.choose('mounted by the TAR itself')
        fails = not join_split and vc.choose('opening fails')
        by_path = vc.choose('the archive is on the host')
        writes, opened, options_used = [], [], []
        split_found = vc.choose('the parts are found') if join_split else False

        class Table(Model):
            pytype = dict

            def contains(self, vc, key):
                vc.prove(zs(key) == (short.z if strip else path.z), 'the mount point is the path, stripped if asked for')
                return already

            def getitem(self, vc, key):
                return parent_info

            def setitem(self, vc, key, value):
                writes.append((key, value))

        is_folder = vc.bool('a folder')
        archive = vc.new(Obj(FileInfo, {'mode': vc.int('mode'), 'linkname': 'l', 'userdata': vc.new(SList(items=[vc.new(Obj(automount.SQLiteIndexedTarUserData, {'istar': is_istar}, 'userdata'))]))}, 'archive'))
        mounted_source = vc.new(Obj(MountSource, {}, 'mounted source'))

        class Deep(Model):
            pytype = automount.SQLiteIndexedTar
            def a_mountRecursively(self, vc):
                return True

            def m_get_file_path(self, vc, info):
                return 'host path'

        deep = Deep()

        class Parent(Model):
            pytype = MountSource

            def m_lookup(self, vc, p, fileVersion=0):
                vc.prove(p is inside, 'the archive is looked up in its source')
                return archive if found else None

            def m_get_mount_source(self, vc, info):
                return ('/', deep, info)

            def m_list_mode(self, vc, folder):
                return vc.new(SList(items=['x']))

            def m_open(self, vc, info):
                vc.prove(info is archive, 'the archive itself is opened')
                return 'file object'

        inside = vc.str('inside')
        parent_info = vc.new(Obj(None, {'mountSource': Parent(), 'rootFileInfo': None, 'recursionDepth': 0}, 'parent'))
        self = vc.new(Obj(AutoMountLayer, {'mounted': Table(), 'maxRecursionDepth': maximum, '_recursive_suffix_rules': 'rules',
                                           'options': vc.new(SDict(items=[['stripRecursiveTarExtension', strip], ['other', 'kept']]))}, 'self'))

        def open_source(i, vc, target, **options):
            opened.append(target)
            options_used.append(options)
            if fails:
                raise PyRaise([OSError, ValueError, RuntimeError][vc.pick(3, 'the error')], ('x',))
            return mounted_source

        def clone(i, vc, s):
            return vc.new(Obj(FileInfo, dict(s.fields), 'clone'))

        def single(vc, name, joined):
            vc.prove(joined == 'joined', 'the joined parts are mounted')
            opened.append('joined')
            options_used.append({'recursionDepth': SInt(z3.If(maximum.z - depth.z > 0, maximum.z - depth.z, 0))})
            return mounted_source

        def folder_mode(i, vc, mode):
            return SInt(z3.IntVal(0o40755))

        interp = Interp(vc, contracts={
            Q + 'get_recursion_depth': lambda i, vc, s, p: depth, Q + '_simply_find_mounted': lambda i, vc, s, p: ('/parent', inside),
            'ratarmountcore.compressions:strip_suffix': lambda i, vc, p, rules: short, 'ratarmountcore.mountsource.factory:open_mount_source': open_source,
            'ratarmountcore.utils:create_folder_from_file_permissions': folder_mode, 'ratarmountcore.mountsource.MountSource:FileInfo.clone': clone,
            'ratarmountcore.compressions:check_for_split_file_in': lambda i, vc, name, names: (vc.new(SList(items=['x.001', 'x.002'])), '0') if split_found else None,
        }, models={stat.S_ISDIR: lambda vc, m: mk_bool(is_folder.z), automount.FIRST_SPLIT_EXTENSION_REGEX.fullmatch: lambda vc, e: join_split, os.path.splitext: lambda vc, p: ('x', '.001' if join_split else '.tar'), os.path.split: lambda vc, p: ('/folder', 'x.001'),
                   automount.SingleFileMountSource: single, automount.JoinedFileFromFactory: lambda vc, parts: 'joined'})
        kind, r = attempt(lambda: interp.run_function(AutoMountLayer._try_to_mount_file, [self, path]))
        vc.prove(kind == 'ok', 'an archive that cannot be opened is no error')
        if kind != 'ok':
            return
        options = {k: v for k, v in self.fields['options'].items}
        vc.prove(set(options) == {'stripRecursiveTarExtension', 'other'}, 'the options of the layer stay as they are')
        if not writes:
            vc.prove(r is None, 'the caller is told that nothing is mounted')
            vc.prove(z3.Or(z3.BoolVal(already or not found or fails or is_istar or (join_split and not split_found)), is_folder.z, depth.z > maximum.z, short.z == path.z), 'an archive within the depth is mounted')
            return
        vc.prove(len(writes) == 1 and not already and found and not fails and not is_istar, 'what is mounted could be opened and was not mounted before')
        key, value = writes[0]
        vc.prove(z3.Not(is_folder.z), 'folders are no archives')
        vc.prove(z3.And(depth.z <= maximum.z, short.z != path.z), 'nothing is mounted deeper than allowed')
        vc.prove(z3.And(zs(r) == zs(key), zs(key) == (short.z if strip else path.z)), 'the mount point is the path, stripped if asked for')
        vc.prove(isinstance(value, Obj) and value.fields['mountSource'] is mounted_source, 'the opened source is mounted')
        vc.prove(zi(value.fields['recursionDepth']) == depth.z, 'the depth of the mount point is remembered')
        used = options_used[0]
        vc.prove(zi(used['recursionDepth']) == z3.If(maximum.z - depth.z > 0, maximum.z - depth.z, 0), 'the mounted source may recurse only as deep as is left')
        root = value.fields['rootFileInfo']
        vc.prove(root is not archive and root.fields['linkname'] == '', 'the mount point has its own entry')
        ud = root.fields['userdata']
        vc.prove(ud is not archive.fields['userdata'] and len(ud.items) == 1, 'the entry of the mount point belongs to it')
        vc.prove(zs(ud.items[0]) == zs(key), 'the entry of the mount point belongs to it')
    return run


def run_modes(ctx):
    """all modes"""
    for mode in range(1 << 16):
        with ctx.case({'mode': oct(mode)}) as c:
            want = stat.S_IFDIR | (mode & 0o777) | (mode & 0o444) >> 2
            c.equal(create_folder_from_file_permissions(mode), want, 'a mount point is a folder with the permissions of the file, executable where readable')


ORACLES = [
    Oracle('nested archives', run_nested, [AutoMountLayer.__init__, AutoMountLayer._find_mounted, AutoMountLayer._append_mount_points, AutoMountLayer.get_recursion_depth, AutoMountLayer._try_to_mount_file],
           '700 (9000) random trees of nested TAR, ZIP and gzip-compressed TAR archives, up to 4 levels, with all options'),
    Oracle('modes of mount points', run_modes, [create_folder_from_file_permissions], 'all modes'),
    Oracle('split archives', run_split, [AutoMountLayer._try_to_mount_file], '3 split archives'),
]
UNITS = [
    Unit('the deepest mount point of a path', unit_simply_find, [AutoMountLayer._simply_find_mounted]),
    Unit('versions of a path', unit_versions, [AutoMountLayer.versions]),
    Unit('lookup of a version', unit_lookup, [AutoMountLayer.lookup]),
    Unit('mounting a file', unit_try_mount(False, False), [AutoMountLayer._try_to_mount_file]),
    Unit('mounting a split file', unit_try_mount(False, True), [AutoMountLayer._try_to_mount_file]),
    Unit('mounting a file with its extension stripped', unit_try_mount(True, False), [AutoMountLayer._try_to_mount_file]),
]
LEVEL = 'proof'
TRUSTED = ['the compositing layers below and open_mount_source through their contracts']
ASSUMPTIONS = ['get_recursion_depth, _append_mount_points and _find_mounted_file are only covered by runs', 'split archives inside nested archives are not mounted', 'names that collide after removing the archive extension are unspecified']
