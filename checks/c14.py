"""Contracts for the prefix-removing and the single-file source, and runs on random trees."""
import io
import posixpath
import stat
import threading

import z3

from checks import paths as normal
from checks.common import quiet
from checks.compose import TreeSource, all_paths, attributes, canonical, innermost, random_tree, state
from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp
from pyvc.values import Host, Model, Obj, PyRaise, SBool, SDict, SInt, SList, SStr, Unsupported, zb, zi, zs
from ratarmountcore.mountsource import FileInfo, MountSource
from ratarmountcore.mountsource.compositing.removeprefix import RemovePrefixMountSource
from ratarmountcore.mountsource.compositing.singlefile import SingleFileMountSource

M = 'ratarmountcore.mountsource.MountSource:'
QS = 'ratarmountcore.mountsource.compositing.singlefile:SingleFileMountSource.'
S = z3.StringSort()
V = z3.StringVal


# ------------------------------------------------------------------------------------------------ runs
def names(listing):
    return None if listing is None else sorted(listing)


def run_prefixes(ctx):
    """every view of random sources below random prefixes, for all short paths"""
    quiet()
    paths = ['/', *all_paths('ab', 4)]
    for _ in range(ctx.budget(400, 4000)):
        if ctx.out_of_time():
            return
        depth = ctx.rng.randrange(0, 4)
        parts = [ctx.rng.choice(['a', 'b', 'ab', 'a.b']) for _d in range(depth)]
        prefix = ctx.rng.choice(['', '/', '//', './', '/x/../']) + '/'.join(parts) + ctx.rng.choice(['', '/', '/.'] if parts else [''])
        source = random_tree(ctx.rng, 's', names='ab')
        with ctx.case({'prefix': prefix, 'source': source.describe()}) as c:
            view = RemovePrefixMountSource(prefix, source)
            extra = ['/' + '/'.join(parts) + p for p in ctx.rng.sample(paths, 12)] + ['/' + '/'.join(parts) + 'a', '/' + '/'.join(parts)[:-1]]
            for p in [*ctx.rng.sample(paths, 20), '/', '', *extra]:
                q = canonical(p).strip('/').split('/') if canonical(p) != '/' else []
                for spelled in (p, p.lstrip('/'), p.rstrip('/') + '/'):
                    if q[:depth] == parts:
                        check_inside(c, view, source, spelled, '/' + '/'.join(q[depth:]))
                    elif parts[:len(q)] == q:
                        check_above(c, view, spelled, parts[len(q)])
                    else:
                        c.check(view.lookup(spelled) is None and view.list(spelled) is None and view.list_mode(spelled) is None and view.versions(spelled) == 0
                                and not view.exists(spelled) and not view.is_dir(spelled), 'nothing exists beside the prefix', path=spelled)
            view.__exit__(None, None, None)
            c.equal((source.closed, source.misuse), (1, []), 'closing the view closes its source')


def check_above(c, view, p, child):
    info = view.lookup(p)
    c.check(info is not None and stat.S_ISDIR(info.mode) and view.exists(p) and view.is_dir(p), 'the folders above the prefix exist', path=p)
    c.equal((names(view.list(p)), names(view.list_mode(p)), view.versions(p)), ([child], [child], 1), 'the folders above the prefix list only the way to it', path=p)
    c.check(stat.S_ISDIR(view.list_mode(p)[child]) and stat.S_ISDIR(view.list(p)[child].mode), 'the folders above the prefix list a folder', path=p)
    c.equal((view.list_xattr(info), view.get_xattr(info, 'user.token'), view.get_mount_source(info)[1] is view), ([], None, True), 'folders above the prefix belong to the view', path=p)
    for f in (lambda: view.open(info), lambda: view.read(info, 1, 0)):
        try:
            f()
            c.check(False, 'folders above the prefix cannot be opened', path=p)
        except OSError:
            pass


def check_inside(c, view, source, p, rest):
    c.equal((view.versions(p), view.exists(p), view.is_dir(p)), (source.versions(rest), source.exists(rest), source.is_dir(rest)), 'what exists is what the source has', path=p)
    for v in (0, 1, 2, 3, -1, -2, 9):
        got, want = view.lookup(p, v), source.lookup(rest, v)
        c.check((got is None) == (want is None), 'a version exists if the source has it', path=p, version=v)
        if want is None:
            continue
        c.check(attributes(got) == attributes(want) and repr(innermost(got)) == repr(innermost(want)), 'every version is that of the source', path=p, version=v)
        if stat.S_ISREG(got.mode):
            before = state(got)
            data = source.content(innermost(want))
            with view.open(got) as f:
                c.equal(f.read(), data, 'contents are those of the source', path=p, version=v)
            c.equal(view.read(got, 3, 1), data[1:4], 'contents are those of the source', path=p, version=v)
            c.equal((view.list_xattr(got), view.get_xattr(got, 'user.token')), (source.list_xattr(want), source.get_xattr(want, 'user.token')), 'attributes are those of the source')
            c.check(view.get_mount_source(got)[1] is source and state(got) == before, 'entries belong to the source')
    for m in ('list', 'list_mode'):
        a, b = getattr(view, m)(p), getattr(source, m)(rest)
        c.equal(names(a), names(b), 'folders are listed as by the source', path=p)
        if isinstance(b, dict):
            c.equal({n: i if m == 'list_mode' else attributes(i) for n, i in a.items()}, {n: i if m == 'list_mode' else attributes(i) for n, i in b.items()}, 'folders are listed as by the source', path=p)


class Short(io.BytesIO):
    """reads return fewer bytes than asked for"""

    def read(self, n=-1):
        return super().read(n if n is None or n < 0 else min(n, 3))


def run_single(ctx):
    quiet()
    for _ in range(ctx.budget(600, 6000)):
        if ctx.out_of_time():
            return
        name = ''.join(ctx.rng.choice(['a', 'b', '.', ' ', '\n', 'é', '*']) for _k in range(ctx.rng.randrange(1, 4)))
        if name in ('.', '..'):
            continue
        data = bytes(ctx.rng.randrange(256) for _k in range(ctx.rng.choice([0, 1, 5, 100, 9000])))
        spelled = ctx.rng.choice(['', '/', './', '//']) + name + ctx.rng.choice(['', '/'])
        kind = ctx.rng.choice(['file', 'callable'])
        ops = [(ctx.rng.randrange(3), ctx.rng.choice(['read', 'seek', 'tell', 'end']), ctx.rng.randrange(0, 120)) for _k in range(12)]
        buffering = [ctx.rng.choice([-1, 0, 7, 4096]) for _k in range(3)]
        with ctx.case({'name': spelled, 'data': data, 'kind': kind, 'operations': ops, 'buffering': buffering}) as c:
            s = SingleFileMountSource(spelled, io.BytesIO(data) if kind == 'file' else (lambda buffering: io.BytesIO(data)))
            for p in ('', '/'):
                c.equal((names(s.list(p)), names(s.list_mode(p)), s.versions(p)), ([name], [name], 1), 'the folder lists exactly the file', path=p)
                c.check(stat.S_ISDIR(s.lookup(p).mode) and s.is_dir(p), 'the root is a folder', path=p)
            for p in (name, '/' + name, '/' + name + '/'):
                info = s.lookup(p)
                c.check(info is not None and stat.S_ISREG(info.mode) and info.size == len(data), 'the file has its name, type and size', path=p)
                c.equal((s.versions(p), s.list(p), s.list_mode(p), s.exists(p), s.is_dir(p)), (1, None, None, True, False), 'the file is one file with one version', path=p)
            for p in ('/' + name + 'x', '/x' + name, '/' + name + '/' + name, '/' + name[:-1] + 'z', '/' + name + '/x', '/..', name.upper() + 'Q'):
                c.equal((s.lookup(p), s.list(p), s.versions(p), s.exists(p)), (None, None, 0, False), 'nothing else exists', path=p)
            for v in (2, 3, -1, 7):
                c.check(s.lookup('/' + name, v) is None and s.lookup('/', v) is None, 'there is only one version', version=v)
            info = s.lookup('/' + name, ctx.rng.choice([0, 1]))
            files, at = [s.open(info, b) for b in buffering], [0] * 3
            for k, op, n in ops:
                if op == 'read':
                    c.equal(files[k].read(n), data[at[k]:at[k] + n], 'reads return the contents, independently of other readers')
                    at[k] = min(len(data), at[k] + n) if at[k] <= len(data) else at[k]
                elif op == 'seek':
                    at[k] = min(n, len(data))
                    c.equal(files[k].seek(at[k]), at[k], 'seeks return the position')
                elif op == 'end':
                    at[k] = files[k].seek(0, io.SEEK_END)
                    c.equal(at[k], len(data), 'the end is at the size')
                else:
                    c.equal(files[k].tell(), at[k], 'positions are those of the reader')
            c.equal(s.read(info, 50, 3), data[3:53], 'reads at an offset return the contents')
            try:
                s.open(s.lookup('/'))
                c.check(False, 'the root cannot be opened')
            except ValueError:
                pass
    for bad in ('', '/', '.', './', 'a/b', '/a/b/', '..', 'a/..'):
        with ctx.case({'name': bad}) as c:
            c.raises(lambda b=bad: SingleFileMountSource(b, io.BytesIO()), ValueError, 'only file names are accepted')


# ------------------------------------------------------------------------------------------------ proofs
def strips(vc, s):
    raise Unsupported('strip')


RSTRIP = z3.Function('rstrip_slash', S, S)


def rstrip(vc, s):
    z = s.z
    r = RSTRIP(z)
    # what is assumed of str.rstrip('/') of a normal path: at most the one slash of the root is removed
    one = z3.And(z3.SuffixOf(V('/'), z), z3.Not(z3.SuffixOf(V('//'), z)))
    vc.assume(z3.Implies(z3.Not(z3.SuffixOf(V('/'), z)), r == z))
    vc.assume(z3.Implies(one, r == z3.SubString(z, 0, z3.Length(z) - 1)))
    return SStr(r)


LSTRIP = z3.Function('lstrip_slash', S, S)


def lstrip(vc, s):
    r = LSTRIP(s.z)
    vc.assume(z3.And(z3.Not(z3.PrefixOf(V('/'), r)), z3.SuffixOf(r, s.z), normal.REL(r) == normal.REL(s.z), normal.REL(z3.Concat(V('/'), r)) == normal.REL(s.z)))
    return SStr(r)


def unit_prefix(vc):
    """the prefix is the normal form of the path between slashes"""
    path = vc.watch('path', vc.str('path'))
    source = vc.new(Obj(MountSource, {}, 'source'))
    self = vc.new(Obj(RemovePrefixMountSource, {}, 'self'))
    info = vc.new(Obj(FileInfo, {}, 'info'))
    interp = Interp(vc, contracts={M + 'create_root_file_info': lambda i, vc, u: info}, models={**normal.MODELS, ('lstrip', '/'): lstrip, ('rstrip', '/'): rstrip})
    kind, _r = attempt(lambda: interp.run_function(RemovePrefixMountSource.__init__, [self, path, source]))
    vc.prove(kind == 'ok', 'every path can be a prefix')
    if kind != 'ok':
        return
    rel = normal.rel_facts(vc, path.z)
    vc.prove(zs(self.fields['prefix']) == z3.If(z3.Length(rel) == 0, V('/'), z3.Concat(V('/'), rel, V('/'))), 'the prefix is the normal form of the path')
    vc.prove(self.fields['mountSource'] is source, 'the source is kept')


def unit_view(method):
    def run(vc):
        rel, rest = vc.str('prefix'), vc.watch('path', vc.str('path'))
        for r in (rel.z, rest.z):
            vc.assume(z3.And(z3.Not(z3.PrefixOf(V('/'), r)), z3.Not(z3.SuffixOf(V('/'), r)), z3.Not(z3.Contains(r, V('//')))))
        prefix = z3.simplify(V('/')) if vc.choose('nothing to remove') else z3.Concat(V('/'), rel.z, V('/'))
        root = vc.choose('the root is asked for')
        vc.assume(z3.Length(rel.z) > 0)
        vc.assume(z3.Length(rest.z) > 0)
        full = V('/') if root else z3.Concat(V('/'), rest.z, V('/'))
        path = SStr(z3.Concat(*[x for x in (V('/') if vc.choose('leading slash') else None, V('') if root else rest.z, V('/') if vc.choose('trailing slash') and not root else None, V('')) if x is not None]))
        version = vc.int('version')
        calls, result = [], vc.new(Obj(FileInfo, {'mode': 1}, 'entry'))

        class Source(Model):
            pytype = MountSource

        def method_of(n):
            def f(self, vc, p, *a, **k):
                calls.append((n, p, a[0] if a else k.get('fileVersion', 0)))
                return result
            return f

        for n in ('list', 'list_mode', 'lookup', 'versions', 'exists', 'is_dir'):
            setattr(Source, 'm_' + n, method_of(n))
        info = vc.new(Obj(FileInfo, {'mode': 0o40777, 'userdata': vc.new(SList(items=[]))}, 'folder'))
        clones = []

        def clone(i, vc, s):
            clones.append(vc.new(Obj(FileInfo, dict(s.fields), 'clone')))
            return clones[-1]

        self = vc.new(Obj(RemovePrefixMountSource, {'prefix': SStr(prefix), 'mountSource': Source(), '_directory_info': info}, 'self'))
        interp = Interp(vc, contracts={M + 'FileInfo.clone': clone})
        kind, r = attempt(lambda: interp.run_function(getattr(RemovePrefixMountSource, method), [self, path] + ([version] if method == 'lookup' else [])))
        vc.prove(kind == 'ok', 'a query does not fail')
        if kind != 'ok':
            return
        if calls:
            vc.prove(len(calls) == 1 and calls[0][0] == method and r is result, 'below the prefix the source answers')
            vc.prove(z3.PrefixOf(prefix, full), 'only below the prefix the source answers')
            x = zs(calls[0][1])
            vc.prove(z3.If(z3.Or(z3.Length(x) == 0, z3.PrefixOf(V('/'), x)), z3.Concat(z3.SubString(prefix, 0, z3.Length(prefix) - 1), x, V('/')) == full, z3.Concat(prefix, x, V('/')) == full), 'the source is asked for the rest of the path')
            if method == 'lookup':
                vc.prove(zi(calls[0][2]) == version.z, 'the source is asked for the version')
            return
        vc.prove(z3.Not(z3.PrefixOf(prefix, full)), 'below the prefix the source answers')
        above = z3.PrefixOf(full, prefix)
        absent = r is None or r is False or (isinstance(r, int) and not isinstance(r, bool) and r == 0)
        if absent:
            vc.prove(z3.Not(above), 'the folders above the prefix exist')
            return
        vc.prove(above, 'nothing else exists')
        if method in ('list', 'list_mode'):
            vc.prove(isinstance(r, SDict) and len(r.items) == 1, 'the folders above the prefix list only the way to it')
            n, v = r.items[0]
            n = zs(n)
            vc.prove(z3.And(z3.Length(n) > 0, z3.Not(z3.Contains(n, V('/'))), z3.PrefixOf(z3.Concat(full, n, V('/')), prefix)), 'the way to the prefix is listed')
            vc.prove(v in clones if method == 'list' else v == 0o40777, 'the way to the prefix are folders')
        elif method == 'lookup':
            vc.prove(any(r is x for x in clones), 'the folders above the prefix are folders')
        else:
            vc.prove(r is True or (method == 'versions' and r == 1), 'the folders above the prefix have one version')
    return run


STRIP = z3.Function('strip_slash', S, S)


def unit_single(method):
    def run(vc):
        name, path = vc.str('name'), vc.watch('path', vc.str('path'))
        vc.assume(z3.And(z3.Length(name.z) > 0, z3.Not(z3.Contains(name.z, V('/')))))
        version = vc.int('version')
        made = []

        def create(i, vc, s, isdir, size=None, mode=None):
            made.append((isdir, size, mode, vc.new(Obj(FileInfo, {}, 'info'))))
            return made[-1][-1]

        self = vc.new(Obj(SingleFileMountSource, {'path': name}, 'self'))
        interp = Interp(vc, contracts={QS + '_create_file_info': create}, models={('strip', '/'): lambda vc, s: SStr(STRIP(s.z))})
        kind, r = attempt(lambda: interp.run_function(getattr(SingleFileMountSource, method), [self, path] + ([version] if method == 'lookup' else [])))
        vc.prove(kind == 'ok', 'a query does not fail')
        if kind != 'ok':
            return
        root = z3.Or(path.z == V(''), path.z == V('/'))
        if method == 'list':
            if r is None:
                vc.prove(z3.Not(root), 'the root is listed')
            else:
                vc.prove(root, 'only the root is listed')
                vc.prove(isinstance(r, SList) and len(r.items) == 1 and r.items[0] is name, 'exactly the file is listed')
            return
        exists = z3.And(z3.Or(version.z == 0, version.z == 1), z3.Or(root, STRIP(path.z) == name.z))
        if r is None:
            vc.prove(z3.Not(exists), 'the root and the file exist')
            return
        vc.prove(exists, 'nothing else exists')
        vc.prove(len(made) == 1 and r is made[0][-1], 'an entry is returned')
        vc.prove(root == zb(made[0][0]), 'the root is a folder and the file is none')
    return run


def unit_create_info(vc):
    """the entry of the file has the size of its contents and its type"""
    isdir = vc.choose('folder')
    size, mode = vc.nat('size of the file'), vc.int('mode of the file')
    vc.assume(z3.And(mode.z >= 0, mode.z <= 0o777))
    given = vc.choose('known')
    file_info = vc.new(Obj(FileInfo, {'size': size, 'mode': SInt(mode.z + stat.S_IFREG), 'uid': vc.int('uid'), 'gid': vc.int('gid')}, 'file')) if given else None
    mtime = vc.val('mtime')

    class Opened(Model):
        def enter(self, vc):
            return self

        def exit(self, vc, e):
            return False

        def m_seekable(self, vc):
            return True

        def m_seek(self, vc, off, whence=0):
            vc.prove(off == 0 and whence == io.SEEK_END, 'the size is the end of the file')
            return size

        def m_tell(self, vc):
            return size
    self = vc.new(Obj(SingleFileMountSource, {'_file_info': file_info, 'mtime': mtime, '_open_file': Host(lambda vc, b: Opened())}, 'self'))
    interp = Interp(vc, contracts={'ratarmountcore.mountsource.compositing.singlefile:_get_mode': lambda i, vc, f: mode, 'ratarmountcore.utils:get_userid': lambda i, vc: 1, 'ratarmountcore.utils:get_groupid': lambda i, vc: 1})
    args = [self, isdir]
    kwargs = {'size': 0} if isdir else {}
    kind, r = attempt(lambda: interp.run_function(SingleFileMountSource._create_file_info, args, kwargs))
    vc.prove(kind == 'ok', 'an entry is created')
    if kind != 'ok':
        return
    vc.prove(zi(r.fields['size']) == (0 if isdir else size.z), 'the size is that of the contents')
    vc.prove(r.fields['linkname'] == '' and r.fields['mtime'] is mtime and r is not file_info, 'the entry is a new one')


ORACLES = [
    Oracle('removed prefixes', run_prefixes, [RemovePrefixMountSource._parse_path, RemovePrefixMountSource.open], '400 (4000) random sources and prefixes, each for up to 100 spelled paths and 7 version numbers'),
    Oracle('single files', run_single, [SingleFileMountSource.__init__, SingleFileMountSource.open], '600 (6000) random names and contents with 12 operations on 3 readers'),
]
UNITS = [Unit('the prefix', unit_prefix, [RemovePrefixMountSource.__init__])]
UNITS += [Unit(f'{m} with a removed prefix', unit_view(m), [RemovePrefixMountSource._parse_path, getattr(RemovePrefixMountSource, m)], z3_ms=300) for m in ('list', 'list_mode', 'lookup', 'versions', 'exists', 'is_dir')]
UNITS += [Unit(f'{m} of a single file', unit_single(m), [getattr(SingleFileMountSource, m)]) for m in ('list', 'lookup')]
UNITS += [Unit('the entry of a single file', unit_create_info, [SingleFileMountSource._create_file_info])]
LEVEL = 'proof'
TRUSTED = ['posixpath.normpath (contract validated on all strings up to 7 characters by C07)', 'str.lstrip/rstrip of slashes']
