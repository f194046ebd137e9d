"""C27: a folder source mirrors the folder"""
import os
import random
import stat

import z3

from ratarmountcore.mountsource import FileInfo
from ratarmountcore.mountsource.formats.folder import FolderMountSource, IndexedFolderMountSource, max_up_count
from pyvc.concrete import Oracle
from checks.common import quiet
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp, LoopSpec
from pyvc.values import Model, Obj, PyRaise, SBool, SDict, SInt, SList, SStr, Unsupported, zb, zi

NAMES = ['a', 'b', 'c d', 'ä', 'e\nf', '%', '_', '.h', '...', ' ', 'x.tar', '\\', 'ü' * 30, "'", '"q"', '-n', '*']


# ---------------------------------------------------------------------------------------------------- runs
def make_tree(rng, at, depth, files, outside, raw):
    os.makedirs(at, exist_ok=True)
    names = list(NAMES) + (['\udcff', 'z\udce4'] if raw else [])
    for n in rng.sample(names, rng.randrange(0, 6)):
        p = os.path.join(at, n)
        r = rng.random()
        if os.path.lexists(p):
            continue
        if r < .3 and depth > 0:
            make_tree(rng, p, depth - 1, files, outside, raw)
            os.chmod(p, rng.choice([0o755, 0o700, 0o1777, 0o555]))
        elif r < .55:
            with open(p, 'wb') as f:
                f.write(rng.randbytes(rng.choice([0, 1, 10, 5000])))
            os.chmod(p, rng.choice([0o644, 0o600, 0o4755, 0o444]))
            os.utime(p, ns=(1, rng.randrange(0, 2 ** 32) * 10 ** 9 + rng.randrange(10 ** 9)))
            files.append(p)
        elif r < .6:
            os.mkfifo(p)
        elif r < .65 and files:
            os.link(rng.choice(files), p)
        else:
            ups = rng.randrange(0, 4)
            target = rng.choice([n2 for n2 in names] + ['out', 'out/o', 'out/link', 'nowhere', '.', '', 'out/d/../o', 'a/../../out'])
            target = '../' * ups + target
            if rng.random() < .2:
                target = rng.choice([outside + '/o', outside, '/nowhere', at])
            if rng.random() < .1:
                target = './' + target
            if target:
                os.symlink(target, p)


def leaves(linkname, depth):
    """whether a relative link at the given depth points outside of the root, judged by its text"""
    if linkname.startswith('/'):
        return False
    at = ['x'] * depth
    for part in linkname.split('/'):
        if part == '..':
            if not at:
                return True
            at.pop()
        elif part not in ('', '.'):
            at.append(part)
    return False


def visible(root, parts, resolve=True):
    """what the source should show there: None or (real path to describe, link target or '')"""
    for k in range(1, len(parts) + 1):
        p = os.path.join(root, *parts[:k])
        if not os.path.lexists(p):
            return None
        if os.path.islink(p):
            target = os.readlink(p)
            if resolve and leaves(target, k - 1) and os.path.exists(p):
                if k == len(parts):
                    return os.path.realpath(p), ''
            elif k == len(parts):
                return p, target
            else:
                return None
    return os.path.join(root, *parts), ''


def describe(info):
    return (info.size, info.mtime, info.mode, info.linkname, info.uid, info.gid)


def compare(c, m, root, parts, rng, budget, resolve, stored_mtime=False, writable_names=None):
    p = '/' + '/'.join(parts)
    v = visible(root, parts, resolve)
    spelled = rng.choice([p, p, p.rstrip('/') + '/' if v and stat.S_ISDIR(os.lstat(v[0]).st_mode) else p])
    info = m.lookup(spelled)
    if v is None:
        c.check(info is None and not m.exists(p) and not m.versions(p) and m.list(p) is None and m.list_mode(p) is None,
                'nothing is shown for what is not there', path=p)
        return
    real, linkname = v
    st = os.lstat(real)
    want = (st.st_size, st.st_mtime, st.st_mode, linkname, st.st_uid, st.st_gid)
    if parts or resolve:
        c.check(info is not None and describe(info) == want, 'entries have the attributes the system tells', path=p, got=repr(info), want=want)
        c.check(m.exists(p) and m.versions(p) == 1 and m.is_dir(p) == stat.S_ISDIR(st.st_mode), 'what is shown exists once', path=p)
        c.check(describe(m.lookup(p, 1)) == want and m.lookup(p, 2) is None, 'there is one version', path=p)
    if stat.S_ISDIR(st.st_mode):
        names = os.listdir(real)
        for method in ('list', 'list_mode'):
            got = getattr(m, method)(spelled)
            if got is None and not names and not hasattr(m, 'resolveOutsideLinks'):
                continue  # an index does not tell empty folders from missing ones
            c.check(got is not None and sorted(got) == sorted(names), 'folders list what they contain', path=p, method=method, got=sorted(got or ()), want=sorted(names))
            for n in names:
                shown = visible(root, [*parts, n], resolve)
                if shown is None:
                    continue  # an entry that vanished
                st2 = os.lstat(shown[0])
                if isinstance(got, dict) and method == 'list':
                    i = got[n]
                    c.equal(describe(i), (st2.st_size, st2.st_mtime, st2.st_mode, shown[1], st2.st_uid, st2.st_gid), 'listed entries are those looked up', path=p, name=n)
                    check_contents(c, m, i, st2, shown)
                elif isinstance(got, dict):
                    simple = stat.S_IFMT(st2.st_mode)
                    c.check(stat.S_IFMT(got[n]) == simple or (stat.S_ISREG(got[n]) and simple not in (stat.S_IFDIR, stat.S_IFLNK)),
                            'listed types are those looked up', path=p, name=n, got=oct(got[n]), want=oct(simple))
        for n in rng.sample(names, len(names)):
            if budget[0] > 0:
                budget[0] -= 1
                compare(c, m, root, [*parts, n], rng, budget, resolve)
    else:
        c.check(m.list(p) is None and m.list_mode(p) is None, 'only folders can be listed', path=p)
        check_contents(c, m, info, st, v)
        compare(c, m, root, [*parts, 'x'], rng, budget, resolve)
    compare_missing(c, m, p)


def compare_missing(c, m, p):
    p = p.rstrip('/') + '/never here'
    c.check(m.lookup(p) is None and m.list(p) is None and not m.exists(p) and m.versions(p) == 0, 'nothing is shown for what is not there', path=p)


def check_contents(c, m, info, st, shown):
    if stat.S_ISREG(st.st_mode):
        with open(shown[0], 'rb') as f:
            want = f.read()
        with m.open(info) as f:
            c.equal(f.read(), want, 'files have their contents')
            f.seek(3)
            c.equal(f.read(4), want[3:7], 'files have their contents')
        c.equal(m.read(info, 5, 2), want[2:7], 'files have their contents')
    if stat.S_ISREG(st.st_mode) or hasattr(m, 'resolveOutsideLinks'):
        c.equal(os.lstat(m.get_file_path(info)).st_ino, st.st_ino, 'entries know their files', path=shown[0])


def run_folder(ctx):
    quiet()
    for _ in range(ctx.budget(2500, 30000)):
        if ctx.out_of_time():
            return
        rng = ctx.rng
        seed = rng.randrange(1 << 30)
        how = rng.choice(['absolute', 'absolute', 'slash', 'dot', 'link', 'relative', 'descriptor', 'no outside'])
        with ctx.case({'seed': seed, 'how': how}) as c:
            run_one(ctx, c, seed, how, FolderMountSource)


def run_one(ctx, c, seed, how, kind):
    rng = random.Random(seed)
    tmp = ctx.tmp() + '/1/2/3/4'  # links up from the folder must not reach what others change
    os.makedirs(tmp + '/out/d')
    with open(tmp + '/out/o', 'wb') as f:
        f.write(b'outside')
    os.symlink('o', tmp + '/out/link')
    os.symlink('d', tmp + '/out/dlink')
    with open(tmp + '/out/d/inner', 'wb') as f:
        f.write(b'inner')
    root = tmp + '/root'
    make_tree(rng, root, 3, [], tmp + '/out', kind is FolderMountSource)
    os.symlink('root', tmp + '/lroot')
    before = os.getcwd()
    fd = None
    os.mkdir(tmp + '/decoy')
    for n in NAMES[:5]:
        with open(os.path.join(tmp, 'decoy', n), 'wb') as f:
            f.write(b'not this one')
    os.chdir(tmp + '/decoy')
    try:
        if kind is FolderMountSource:
            arg = {'slash': root + '/', 'dot': '.', 'link': tmp + '/lroot', 'relative': 'root'}.get(how, root)
            if how == 'dot':
                os.chdir(root)
            elif how == 'relative':
                os.chdir(tmp)
            m = FolderMountSource(arg)
            if how == 'descriptor':
                fd = os.open(root, os.O_RDONLY)
                m.set_folder_descriptor(fd)
            if how == 'no outside':
                m.resolveOutsideLinks = False
            c.equal({k: v for k, v in m.statfs().items() if k in ('f_bsize', 'f_namemax')},
                    {'f_bsize': os.statvfs(root).f_bsize, 'f_namemax': os.statvfs(root).f_namemax}, 'the file system of the folder is described')
        else:
            m = IndexedFolderMountSource(root, indexFilePath=rng.choice([':memory:', tmp + '/index.sqlite']))
        compare(c, m, root, [], rng, [60], kind is FolderMountSource and how != 'no outside')
        m.__exit__(None, None, None)
    finally:
        os.chdir(before)
        if fd is not None:
            os.close(fd)


def run_indexed(ctx):
    quiet()
    for _ in range(ctx.budget(800, 12000)):
        if ctx.out_of_time():
            return
        seed = ctx.rng.randrange(1 << 30)
        with ctx.case({'seed': seed}) as c:
            run_one(ctx, c, seed, '', IndexedFolderMountSource)


FUNCTIONS = [FolderMountSource.lookup, FolderMountSource.list, FolderMountSource.list_mode, FolderMountSource.open]
def run_many(ctx):
    """large folders are indexed completely"""
    quiet()
    for count, folders in ((999, 1), (1000, 0), (1001, 3), (2500, 7)) + (((5000, 50), (3000, 2999)) if ctx.thorough else ()):
        with ctx.case({'files': count, 'folders': folders}) as c:
            tmp = ctx.tmp()
            for k in range(folders):
                os.mkdir(f'{tmp}/d{k}')
            want = set()
            for k in range(count):
                p = f'/d{k % folders}/f{k}' if folders and k % 3 else f'/f{k}'
                want.add(p)
                with open(tmp + p, 'w') as f:
                    f.write(p)
            m = IndexedFolderMountSource(tmp, indexFilePath=':memory:')
            got = {'/' + n for n in m.list('/') if n[0] == 'f'}
            for k in range(folders):
                got |= {f'/d{k}/{n}' for n in m.list(f'/d{k}') or ()}
            c.equal(len(got ^ want), 0, 'folders list what they contain')
            for p in want:
                with m.open(m.lookup(p)) as f:
                    c.equal(f.read(), p.encode(), 'files have their contents')
            m.__exit__(None, None, None)


ORACLES = [
    Oracle('large folders', run_many, [IndexedFolderMountSource._create_index], 'folders with 999 to 2500 (5000) files'),
    Oracle('folders', run_folder, FUNCTIONS, '2500 (30000) generated folders of depth up to 4 with links of all kinds'),
    Oracle('indexed folders', run_indexed, [IndexedFolderMountSource._create_index, IndexedFolderMountSource.open],
           '800 (12000) generated folders of depth up to 4 with links of all kinds'),
]


# ---------------------------------------------------------------------------------------------------- proofs
QF = 'ratarmountcore.mountsource.formats.folder:'
I, B = z3.IntSort(), z3.BoolSort()


class System:
    """what the operating system tells about a path of n components below the folder and all its parents"""

    def __init__(self, vc, n=None):
        self.vc = vc
        self.n = vc.nat('components') if n is None else n
        self.lexists, self.islink, self.isdir, self.exists, self.absolute = (vc.func(x, I, B) for x in ('lexists', 'islink', 'isdir', 'exists', 'absolute'))
        self.up, self.pos, self.at = (vc.func(x, I, I) for x in ('up', 'slash', 'component'))
        self.outside = vc.bool('resolve outside links')
        self.opened = []
        i = z3.Int('i')
        vc.assume(z3.ForAll([i], z3.And(self.up(i) >= 0, z3.Implies(self.islink(i), self.lexists(i)), z3.Implies(self.isdir(i), self.exists(i)),
                                        z3.Implies(self.exists(i), self.lexists(i)),
                                        z3.Implies(z3.And(self.lexists(i), z3.Not(self.islink(i))), self.exists(i))), patterns=[self.up(i)]))
        # the path to the folder itself ends with a slash and is no link
        vc.assume(z3.And(z3.Not(self.islink(0)), self.lexists(0), self.up(0) >= 0))

    def resolved(self, k):
        """a link that is shown as what it points to"""
        return z3.And(zb(self.outside), z3.Not(self.absolute(k)), self.up(k) > k - 1, self.exists(k))

    def hides(self, k):
        return z3.And(self.up(k) >= 0, self.islink(k), z3.Not(self.resolved(k)))

    def shown(self, k):
        i = z3.Int('parent')
        return z3.And(self.lexists(k), z3.Not(self.behind(k)))

    def behind(self, k):
        i = z3.Int('parent')
        return z3.Exists([i], z3.And(i >= 1, i < k, self.hides(i)))

    def slashes(self, k):
        """the positions of the slashes between the components"""
        i, j = z3.Ints('i j')
        self.vc.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 1, i < k), z3.And(self.pos(i) >= 1, self.at(self.pos(i)) == i)), patterns=[self.pos(i)]))
        self.vc.assume(z3.ForAll([i, j], z3.Implies(z3.And(1 <= i, i < j, j < k), self.pos(i) < self.pos(j)), patterns=[z3.MultiPattern(self.pos(i), self.pos(j))]))


class Rel(Model):
    """the first k components of a path with or without slashes around them"""
    pytype = str

    def __init__(self, s, k, lead=False, trail=False):
        self.s, self.k, self.lead, self.trail = s, z3.simplify(zi(k)), lead, trail

    def m_strip(self, vc, chars=None):
        if chars != '/':
            raise Unsupported('strip')
        return Rel(self.s, self.k)

    def m_lstrip(self, vc, chars=None):
        if chars != '/':
            raise Unsupported('strip')
        return Rel(self.s, self.k, False, self.trail)

    def m_rstrip(self, vc, chars=None):
        if chars != '/':
            raise Unsupported('strip')
        return Rel(self.s, self.k, self.lead, False)

    def bare(self):
        if self.lead or self.trail:
            raise Unsupported('a path with slashes around it')

    def truth(self, vc):
        return True if self.lead or self.trail else SBool(self.k > 0)

    def m_split(self, vc, sep=None, maxsplit=-1):
        self.bare()
        if sep != '/' or maxsplit != -1:
            raise Unsupported('split')
        return Parts(self)

    def m_count(self, vc, x):
        self.bare()
        if x != '/':
            raise Unsupported('count')
        return SInt(z3.If(self.k > 0, self.k - 1, 0))

    def m_startswith(self, vc, x):
        if x != '/':
            raise Unsupported('prefix')
        return self.lead

    def m_find(self, vc, x, start=0):
        self.bare()
        if x != '/':
            raise Unsupported('find')
        s = self.s
        s.slashes(self.k)
        start = zi(start)
        j, i = vc.nat('found').z, z3.Int('i')
        r = vc.int('position').z
        vc.assume(z3.And(j >= 1, z3.Or(j < self.k, j == z3.If(self.k > 0, self.k, 1))))
        vc.assume(z3.If(j < self.k, z3.And(r == s.pos(j), r >= start, s.at(r) == j, r >= 1, z3.Implies(j > 1, z3.And(s.pos(j - 1) < start, s.pos(j - 1) < r))), r == -1))
        vc.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 1, i < j, i < self.k), s.pos(i) < start), patterns=[s.pos(i)]))
        return SInt(r)

    def getslice(self, vc, lo, hi):
        self.bare()
        if lo not in (None, 0) or hi is None:
            raise Unsupported('slice of a path')
        hi = zi(hi)
        k = self.s.at(hi)
        vc.prove(z3.And(k >= 1, k < self.k, self.s.pos(k) == hi), 'paths are cut at their slashes')
        return Rel(self.s, k)

    def m_rpartition(self, vc, sep):
        raise Unsupported('partition')


class Parts(Model):
    pytype = list

    def __init__(self, rel):
        self.rel = rel

    def spread(self):
        return self


class Real(Model):
    """the path of the first k components for the operating system"""
    pytype = str

    def __init__(self, s, k):
        self.s, self.k = s, k

    def m_startswith(self, vc, x):
        raise Unsupported('the path to the folder')


class Target(Model):
    """what a link says"""
    pytype = str

    def __init__(self, s, k):
        self.s, self.k = s, k

    def truth(self, vc):
        return True


class Resolved(Model):
    """the path of what a link points to in the end"""
    pytype = str

    def __init__(self, s, k):
        self.s, self.k = s, k

    def m_startswith(self, vc, x):
        return True


class Stat(Model):
    def __init__(self, s, what, k):
        self.s, self.what, self.k = s, what, k

    def _get(self, vc, name):
        return (name, self.what, self.k)

    a_st_size = lambda self, vc: self._get(vc, 'size')  # noqa
    a_st_mtime = lambda self, vc: self._get(vc, 'mtime')  # noqa
    a_st_mode = lambda self, vc: self._get(vc, 'mode')  # noqa
    a_st_uid = lambda self, vc: self._get(vc, 'uid')  # noqa
    a_st_gid = lambda self, vc: self._get(vc, 'gid')  # noqa


def system_models(vc, s):
    def real(x):
        if not isinstance(x, Real):
            raise Unsupported('the system is asked about something else')
        s.vc.assume(s.up(x.k) >= 0)
        return x.k

    def join(vc, root, *parts):
        if len(parts) == 1 and isinstance(parts[0], Parts) and root == 'ROOT':
            return Real(s, parts[0].rel.k)
        if len(parts) == 1 and isinstance(parts[0], Rel) and root == 'ROOT' and not parts[0].lead:
            return Real(s, parts[0].k)
        if len(parts) == 1 and isinstance(root, Rel) and isinstance(parts[0], EntryName):
            vc.prove(not root.lead and not root.trail, 'paths of entries are below their folder')
            return Rel(s, root.k + 1)
        raise Unsupported('join')

    def readlink(vc, p):
        if isinstance(p, Real):
            vc.prove(s.islink(real(p)), 'only links are read')
            return Target(s, p.k)
        raise Unsupported('readlink')

    def follow(vc, p):
        if isinstance(p, Resolved):
            return Stat(s, 'target', p.k)
        k = real(p)
        vc.prove(s.exists(k), 'what is described exists')
        return Stat(s, 'target', k)

    def lstat(vc, p):
        k = real(p)
        vc.prove(s.lexists(k), 'what is described exists')
        return Stat(s, 'itself', k)

    def absolute(vc, t):
        if not isinstance(t, Target):
            raise Unsupported('isabs')
        return SBool(s.absolute(t.k))

    return {os.path.join: join, os.path.lexists: lambda vc, p: SBool(s.lexists(real(p))), os.path.islink: lambda vc, p: SBool(s.islink(real(p))),
            os.path.isdir: lambda vc, p: SBool(s.isdir(real(p))), os.path.exists: lambda vc, p: SBool(s.exists(real(p))),
            os.readlink: readlink, os.path.isabs: absolute, os.path.realpath: lambda vc, p: Resolved(s, real(p)), os.stat: follow, os.lstat: lstat,
            os.fsdecode: lambda vc, x: x}


def up_contract(s):
    def f(i, vc, t):
        if not isinstance(t, Target):
            raise Unsupported('levels of something else')
        vc.assume(s.up(t.k) >= 0)
        return SInt(s.up(t.k))
    return f


def is_resolved_contract(s):
    def f(i, vc, self, path, linkname):
        vc.prove(isinstance(path, Rel) and isinstance(linkname, Target), 'a link and what it says are asked about')
        k = z3.simplify(path.k)
        vc.prove(z3.And(zi(linkname.k) == k, k >= 1), 'the link is the one at the path')
        vc.assume(s.up(k) >= 0)
        return SBool(s.resolved(k))
    return f


def source(vc, s):
    return vc.new(Obj(FolderMountSource, {'root': 'ROOT', 'resolveOutsideLinks': s.outside}, 'self'))


def any_spelling(vc, s, k):
    return Rel(s, k, vc.choose('leading slash'), vc.choose('trailing slash'))


def unit_realpath(vc):
    s = System(vc)
    interp = Interp(vc, models=system_models(vc, s))
    for cls in (FolderMountSource, IndexedFolderMountSource):
        self = vc.new(Obj(cls, {'root': 'ROOT'}, 'self'))
        r = interp.run_function(cls._realpath, [self, any_spelling(vc, s, s.n.z)])
        vc.prove(isinstance(r, Real) and z3.is_true(z3.simplify(zi(r.k) == s.n.z)), 'the path is below the folder')


def unit_max_up(vc):
    """the highest number of levels above the start that any prefix of the link leads to"""
    n = vc.nat('parts')
    part = vc.func('part', I, z3.StringSort())
    up, top = vc.func('up', I, I), vc.func('top', I, I)
    i = z3.Int('i')
    V = z3.StringVal
    step = z3.If(part(i) == V('..'), up(i) + 1, z3.If(z3.Or(part(i) == V('.'), part(i) == V('')), up(i), up(i) - 1))
    vc.assume(z3.And(n.z >= 1, up(0) == 0, top(0) == 0))
    vc.assume(z3.ForAll([i], z3.Implies(i >= 0, z3.And(up(i + 1) == step, top(i + 1) == z3.If(up(i + 1) > top(i), up(i + 1), top(i)))), patterns=[part(i)]))
    absolute = vc.bool('absolute')

    class Link(Model):
        pytype = str

        def m_split(self, vc, sep):
            if sep != '/':
                raise Unsupported('split')
            return SList(length=n.z, elem=lambda i: SStr(part(i)))

    def isabs(vc, x):
        return absolute

    interp = Interp(vc, models={os.path.isabs: isabs}, loops={(QF + 'max_up_count', 0): LoopSpec(inv=lambda vc, L: [
        ('the level is that of the parts so far', zi(L.upCount) == up(zi(L.k))),
        ('the highest level so far is kept', zi(L.result) == top(zi(L.k))),
        ('the step is defined', z3.Or(part(zi(L.k)) == part(zi(L.k)), True))],
        havoc={'upCount': lambda vc, L: vc.int('upCount'), 'result': lambda vc, L: vc.int('result')})})
    r = interp.run_function(max_up_count, [Link()])
    vc.prove(zi(r) == z3.If(zb(absolute), 0, top(n.z)), 'the highest number of levels is returned')


def unit_resolved(vc):
    s = System(vc)
    vc.assume(s.n.z >= 1)
    k = s.n.z
    vc.assume(z3.And(s.islink(k), s.up(k) >= 0))
    interp = Interp(vc, contracts={QF + 'max_up_count': up_contract(s)}, models=system_models(vc, s))
    r = interp.run_function(FolderMountSource._is_resolved_link, [source(vc, s), any_spelling(vc, s, k), Target(s, k)])
    vc.prove(zb(r) == s.resolved(k), 'exactly existing targets of relative links that leave the folder are shown instead of the link')


def unit_behind(vc):
    s = System(vc)
    k = s.n.z
    models = system_models(vc, s)

    def inv(vc, L):
        end = zi(L.end)
        i = z3.Int('i')
        at = z3.If(end >= 0, s.at(end), k)
        return [('the search is at a slash or done', z3.Or(end == -1, z3.And(end >= 1, s.at(end) >= 1, s.at(end) < k, s.pos(s.at(end)) == end))),
                ('no parent so far is a link', z3.ForAll([i], z3.Implies(z3.And(i >= 1, i < at), z3.Not(s.hides(i))), patterns=[s.up(i)]))]
    interp = Interp(vc, contracts={QF + 'FolderMountSource._is_resolved_link': is_resolved_contract(s)}, models=models, loops={
        (QF + 'FolderMountSource._is_behind_link', 0): LoopSpec(inv=inv, havoc={'end': lambda vc, L: vc.int('end'), 'realpath': lambda vc, L: None},
                                                               decreases=lambda vc, L: z3.If(zi(L.end) >= 0, k - s.at(zi(L.end)), 0))})
    s.slashes(k)
    r = interp.run_function(FolderMountSource._is_behind_link, [source(vc, s), any_spelling(vc, s, k)])
    j = vc.skolem('j')
    vc.assume(s.up(j) >= 0)
    if r is True or r is False:
        r = z3.BoolVal(r)
    vc.prove(z3.Implies(z3.And(j >= 1, j < k, s.hides(j)), zb(r)), 'there is nothing behind a link')
    vc.prove(z3.Implies(zb(r), s.behind(k)), 'everything else is not behind a link')


def behind_contract(s):
    def f(i, vc, self, path):
        return SBool(s.behind(path.k))
    return f


def contracts(s):
    return {QF + 'FolderMountSource._is_behind_link': behind_contract(s), QF + 'FolderMountSource._is_resolved_link': is_resolved_contract(s)}


def unit_is_folder(vc):
    s = System(vc)
    k = s.n.z
    vc.assume(s.up(k) >= 0)
    interp = Interp(vc, contracts=contracts(s), models=system_models(vc, s))
    r = interp.run_function(FolderMountSource._is_folder, [source(vc, s), any_spelling(vc, s, k)])
    vc.prove(zb(r) == z3.And(s.isdir(k), z3.Not(s.hides(k)), z3.Not(s.behind(k))), 'exactly what is shown as a folder is one')


def unit_exists(vc):
    s = System(vc)
    k = s.n.z
    vc.assume(s.up(k) >= 0)
    interp = Interp(vc, contracts=contracts(s), models=system_models(vc, s))
    path = any_spelling(vc, s, k)
    shown = z3.And(s.lexists(k), z3.Not(s.behind(k)))
    vc.prove(zb(interp.run_function(FolderMountSource.exists, [source(vc, s), path])) == shown, 'exactly what is not behind a link exists')
    vc.prove(zi(interp.run_function(FolderMountSource.versions, [source(vc, s), path])) == z3.If(shown, 1, 0), 'what exists has one version')


def new_info(vc, **kwargs):
    return vc.new(Obj(FileInfo, dict(kwargs), 'info'))


def prove_info(vc, s, info, k, what):
    """the entry describes the k-th path as it is shown"""
    f = info.fields
    resolved = z3.And(s.islink(k), s.resolved(k))
    stats = [f[x] for x in ('size', 'mtime', 'mode', 'uid', 'gid')]
    vc.prove(all(isinstance(x, tuple) for x in stats) and [x[0] for x in stats] == ['size', 'mtime', 'mode', 'uid', 'gid'] and len({x[1] for x in stats}) == 1,
             what + ': all attributes are those the system tells')
    for x in stats:
        vc.prove(zi(x[2]) == k, what + ': the attributes are those of the entry')
    vc.prove(z3.Implies(resolved, z3.BoolVal(stats[0][1] == 'target')), what + ': links that leave the folder show their targets')
    vc.prove(z3.Implies(z3.And(s.islink(k), z3.Not(resolved)), z3.BoolVal(stats[0][1] == 'itself')), what + ': other links show themselves')
    link = f['linkname']
    if isinstance(link, Target):
        vc.prove(z3.And(zi(link.k) == k, s.islink(k), z3.Not(resolved)), what + ': the link target is that of the link')
    else:
        vc.prove(z3.And(z3.BoolVal(link == ''), z3.Or(z3.Not(s.islink(k)), resolved)), what + ': only links have link targets')
    data = f['userdata']
    vc.prove(isinstance(data, SList) and len(data.items) == 1, what + ': the entry knows its file')
    path = data.items[0]
    if isinstance(path, Resolved):
        vc.prove(z3.And(zi(path.k) == k, resolved), what + ': the entry knows its file')
    else:
        vc.prove(isinstance(path, Rel) and not path.lead, what + ': the entry knows its file')
        vc.prove(z3.And(path.k == k, z3.Not(resolved)), what + ': the entry knows its file')


def unit_lookup(vc):
    s = System(vc)
    k = s.n.z
    vc.assume(s.up(k) >= 0)
    version = vc.int('version')
    models = system_models(vc, s)
    models[FileInfo] = new_info
    interp = Interp(vc, contracts=contracts(s), models=models)
    r = interp.run_function(FolderMountSource.lookup, [source(vc, s), any_spelling(vc, s, k), version])
    there = z3.And(z3.Or(version.z == 0, version.z == 1), s.lexists(k), z3.Not(s.behind(k)))
    if r is None:
        vc.prove(z3.Not(there), 'what exists can be looked up')
        return
    vc.prove(there, 'nothing else can be looked up')
    prove_info(vc, s, r, k, 'lookup')


class EntryName(Model):
    pytype = str

    def encode_key(self, x=None):
        return z3.StringVal('name')

    def eq(self, vc, other):
        return self is other


class Entry(Model):
    """any entry of the folder"""

    def __init__(self, s, k):
        self.s, self.k, self.the_name = s, k, EntryName()

    def a_name(self, vc):
        return self.the_name

    def a_path(self, vc):
        return Real(self.s, self.k)

    def m_is_symlink(self, vc):
        return SBool(self.s.islink(self.k))

    def m_is_dir(self, vc, *, follow_symlinks=True):
        if isinstance(follow_symlinks, bool):
            follow_symlinks = z3.BoolVal(follow_symlinks)
        return SBool(z3.And(self.s.isdir(self.k), z3.Or(zb(follow_symlinks), z3.Not(self.s.islink(self.k)))))

    def m_is_file(self, vc, *, follow_symlinks=True):
        raise Unsupported('is_file')

    def m_stat(self, vc, *, follow_symlinks=True):
        if follow_symlinks is True:
            vc.prove(self.s.exists(self.k), 'what is described exists')
            return Stat(self.s, 'target', self.k)
        if follow_symlinks is not False:
            raise Unsupported('stat')
        return Stat(self.s, 'itself', self.k)


def unit_list(method):
    def run(vc):
        s = System(vc)
        k = s.n.z
        vc.assume(z3.And(s.up(k) >= 0, s.up(k + 1) >= 0, s.lexists(k + 1)))
        folder = z3.And(s.isdir(k), z3.Not(s.hides(k)), z3.Not(s.behind(k)))
        entry = Entry(s, z3.simplify(k + 1))
        empty = vc.choose('empty')

        def is_folder(i, vc, self, path):
            vc.prove(path.k == k, 'the folder itself is asked about')
            return SBool(folder)

        def scan(vc, p):
            vc.prove(isinstance(p, Real), 'the folder itself is listed')
            vc.prove(zi(p.k) == k, 'the folder itself is listed')
            return vc.new(SList(items=[] if empty else [entry]))
        models = system_models(vc, s)
        models.update({os.scandir: scan, FileInfo: new_info})
        interp = Interp(vc, contracts={**contracts(s), QF + 'FolderMountSource._is_folder': is_folder}, models=models)
        r = interp.run_function(getattr(FolderMountSource, method), [source(vc, s), any_spelling(vc, s, k)])
        if r is None:
            vc.prove(z3.Not(folder), 'folders can be listed')
            return
        vc.prove(folder, 'only folders can be listed')
        vc.prove(isinstance(r, SDict) and len(r.items) == (0 if empty else 1), 'every entry is listed once')
        if empty:
            return
        name, v = r.items[0]
        vc.prove(name is entry.the_name, 'entries are listed under their names')
        if method == 'list':
            prove_info(vc, s, v, z3.simplify(k + 1), 'list')
        else:
            k1 = z3.simplify(k + 1)
            link = z3.And(s.islink(k1), z3.Not(s.resolved(k1)))
            want = z3.If(link, stat.S_IFLNK, z3.If(s.isdir(k1), stat.S_IFDIR, stat.S_IFREG))
            vc.prove(zi(v) == want, 'listed types are those shown')
    return run


def unit_file_path(vc):
    """entries of lookups and listings lead to the file they describe"""
    s = System(vc)
    k = s.n.z
    resolved = vc.choose('resolved link')
    data = Resolved(s, k) if resolved else Rel(s, k, False, vc.choose('trailing slash'))
    info = vc.new(Obj(FileInfo, {'userdata': vc.new(SList(items=['other', data]))}, 'info'))
    opened = []
    fails = vc.choose('fails')

    def fake_open(vc, p, *args, **kwargs):
        opened.append((p, args, kwargs))
        if fails:
            raise PyRaise(IsADirectoryError, 'folder')
        return 'FILE'
    interp = Interp(vc, models={**system_models(vc, s), open: fake_open})
    p = interp.run_function(FolderMountSource.get_file_path, [source(vc, s), info])
    vc.prove((p is data) if resolved else (isinstance(p, Real) and z3.is_true(z3.simplify(zi(p.k) == k))), 'the file of the entry is found')
    kind, r = attempt(lambda: interp.run_function(FolderMountSource.open, [source(vc, s), info]))
    q, args, kwargs = opened[0]
    vc.prove(len(opened) == 1 and args[0] == 'rb' and ((q is data) if resolved else (isinstance(q, Real) and z3.is_true(z3.simplify(zi(q.k) == k)))), 'the file of the entry is opened for reading')
    vc.prove((kind == 'ok' and r == 'FILE') if not fails else kind != 'ok', 'the opened file is returned')


UNITS = [
    Unit('paths in the folder', unit_realpath, [FolderMountSource._realpath, IndexedFolderMountSource._realpath]),
    Unit('levels above', unit_max_up, [max_up_count]),
    Unit('links shown as their targets', unit_resolved, [FolderMountSource._is_resolved_link]),
    Unit('nothing behind links', unit_behind, [FolderMountSource._is_behind_link]),
    Unit('folders', unit_is_folder, [FolderMountSource._is_folder]),
    Unit('existence and versions', unit_exists, [FolderMountSource.exists, FolderMountSource.versions]),
    Unit('lookup', unit_lookup, [FolderMountSource.lookup, FolderMountSource._stats_to_file_info]),
    Unit('list', unit_list('list'), [FolderMountSource.list, FolderMountSource._dir_entry_to_file_info, FolderMountSource._stats_to_file_info]),
    Unit('list_mode', unit_list('list_mode'), [FolderMountSource.list_mode]),
    Unit('opening', unit_file_path, [FolderMountSource.open, FolderMountSource.get_file_path]),
]
LEVEL = 'proof'
TRUSTED = ['os.path and os functions describe one unchanging folder', 'os.path.join of path components', 'FileInfo keeps what it is created with']
ASSUMPTIONS = ['the folder does not change during one operation', 'paths are normalized (no empty, . or .. components)',
               'list and list_mode are checked for one arbitrary entry (the comprehension treats entries alike)']
