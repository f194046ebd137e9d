"""Contracts for the tree of mount points, and runs of all short histories of mounting and unmounting."""
import itertools
import posixpath
import stat

import z3

from checks import paths as normal
from checks.common import quiet
from checks.compose import TreeSource, all_paths, attributes, innermost, random_tree
from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp, LoopSpec
from pyvc.values import Host, Model, Obj, PyRaise, SBool, SDict, SInt, SList, SStr, Unsupported, Val, zb, zi, zs
from ratarmountcore.mountsource import FileInfo, MountSource
from ratarmountcore.mountsource.compositing import subvolumes
from ratarmountcore.mountsource.compositing.subvolumes import SubvolumesMountSource
from ratarmountcore.utils import RatarmountError

Q = 'ratarmountcore.mountsource.compositing.subvolumes:SubvolumesMountSource.'
S, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()
V = z3.StringVal


# ------------------------------------------------------------------------------------------------ reference and runs
def clean(path):
    out = []
    for p in path.split('/'):
        if p == '..':
            out[-1:] = []
        elif p not in ('', '.'):
            out.append(p)
    return tuple(out)


class Reference:
    """mount points as a flat map from tuples of names to sources"""

    def __init__(self):
        self.mounts = {}

    def above(self, p):
        return any(len(q) <= len(p) and p[:len(q)] == q for q in self.mounts)

    def free(self, p):
        """may something be mounted at p?"""
        return bool(p) and not self.above(p) and not any(q[:len(p)] == p for q in self.mounts)

    def folder(self, p):
        return not p or any(q[:len(p)] == p and len(q) > len(p) for q in self.mounts)

    def find(self, p):
        for q, s in self.mounts.items():
            if p[:len(q)] == q:
                return q, '/' + '/'.join(p[len(q):]), s
        return None


def check_view(c, sub, ref, paths):
    for p in paths:
        found = ref.find(clean(p))
        got = sub.lookup(p)
        if found is None:
            isdir = ref.folder(clean(p))
            c.check((got is not None and stat.S_ISDIR(got.mode)) if isdir else got is None, 'exactly the folders above mount points exist', path=p)
            c.equal(sub.versions(p), 1 if isdir else 0, 'folders above mount points have one version', path=p)
            for method in ('list', 'list_mode'):
                want = {q[len(clean(p))] for q in ref.mounts if q[:len(clean(p))] == clean(p)}
                names = getattr(sub, method)(p)
                c.equal(None if names is None else sorted(names), sorted(want) if isdir else None, 'folders above mount points list exactly their children', path=p)
            continue
        q, rest, source = found
        c.equal(sub.versions(p), source.versions(rest), 'versions are those of the mounted source', path=p)
        for v in (0, 1, 2, -1):
            got, want = sub.lookup(p, v), source.lookup(rest, v)
            c.check((got is None) == (want is None), 'below a mount point exists what its source has', path=p, version=v)
            if want is not None:
                c.check(attributes(got) == attributes(want) and repr(innermost(got)) == repr(innermost(want)), 'below a mount point is what its source has', path=p, version=v)
                if stat.S_ISREG(got.mode):
                    with sub.open(got) as f:
                        c.equal(f.read(), source.content(innermost(want)), 'files have the contents of their source', path=p, version=v)
                point, deep, info = sub.get_mount_source(got)
                c.check(deep is source and clean(point) == q and innermost(info) is not None, 'the source of an entry is the mounted one', path=p, got=point)
        for method in ('list', 'list_mode'):
            a, b = getattr(sub, method)(p), getattr(source, method)(rest)
            c.equal(None if a is None else sorted(a), None if b is None else sorted(b), 'folders are listed as by their source', path=p)


def apply(c, sub, ref, op, path, source):
    key = clean(path)
    if op == 'ask':
        c.equal(sub.is_mountable(path), ref.free(key), 'it is known where something can be mounted', path=path)
    elif op == 'mount':
        try:
            done = sub.mount(path, source)
        except RatarmountError:
            done = False
        c.equal(bool(done), ref.free(key), 'mounting works exactly where nothing is mounted', path=path)
        if ref.free(key):
            ref.mounts[key] = source
    elif op == 'unmount':
        want = ref.mounts.pop(key, None)
        c.check(sub.unmount(path) is want, 'unmounting removes exactly the named mount point', path=path)
    elif op == 'look':
        sub.lookup(path), sub.list(path), sub.list_mode(path), sub.versions(path), sub.is_mountable(path)


def small(label):
    return TreeSource({'/f': [label.encode(), label.encode() * 2], '/a/b': [b'ab'], '/b': [b'xyz']}, ['/d'], label=label)


def run_histories(ctx):
    """all histories of up to 3 (4) operations on a few mount points"""
    quiet()
    points = ['a', 'a/b', 'b/c', '/a/b/c', '//b', 'b/../a', '/', '..']
    probes = ['/', '', 'a', '/a', '/a/b', '/a/b/c', '/b', '/b/c', '/b/c/f', '/a/f', '/a/b/f', '/a/b/a/b', '/b/b', '/a/b/c/f', '/c', '/b/c/d', 'a/b/f', '/a//b/f', '/a/']
    ops = [(o, p) for o in ('mount', 'unmount', 'ask') for p in points]
    for n in range(1, (5 if ctx.thorough else 4)):
        for history in itertools.product(ops, repeat=n):
            if ctx.out_of_time():
                return
            if n >= 3 and (history[0][0] != 'mount' or (not ctx.thorough and ctx.rng.random() > .04)):
                continue
            with ctx.case({'history': history}) as c:
                sub, ref = SubvolumesMountSource({}), Reference()
                for k, (op, p) in enumerate(history):
                    apply(c, sub, ref, op, p, small(f's{k}'))
                    check_view(c, sub, ref, ['/', '/a', '/b'] if k < n - 1 else probes)
                mounted = list(ref.mounts.values())
                sub.__exit__(None, None, None)
                c.check(all(m.closed == 1 for m in mounted), 'every mounted source is closed once')


def run_random(ctx):
    quiet()
    paths = list(all_paths('abc', 4))
    for _ in range(ctx.budget(1200, 9000)):
        if ctx.out_of_time():
            return
        history, mounted = [], []
        for k in range(ctx.rng.randrange(1, 12)):
            op = ctx.rng.choice(['mount', 'mount', 'mount', 'unmount', 'ask', 'look'])
            p = ctx.rng.choice(['', '/', '//', '/x/../', './']) + '/'.join(ctx.rng.choice('abc') for _d in range(ctx.rng.randrange(1, 5))) + ctx.rng.choice(['', '/'])
            if op == 'unmount' and mounted and ctx.rng.random() < .7:
                p = ctx.rng.choice(mounted)
            if op == 'mount':
                mounted.append(p)
            history.append((op, p, random_tree(ctx.rng, f's{k}')))
        with ctx.case({'history': [(op, p, s.describe() if op == 'mount' else None) for op, p, s in history]}) as c:
            sub, ref = SubvolumesMountSource({}), Reference()
            for op, p, s in history:
                apply(c, sub, ref, op, p, s)
            check_view(c, sub, ref, ['/', *ctx.rng.sample(paths, 60)])


# ------------------------------------------------------------------------------------------------ proofs
class World:
    """any tree of mount points; a node is a mounted source or a folder"""

    def __init__(self, vc, path=None):
        self.vc = vc
        self.n = vc.nat('components')
        self.part = vc.func('part', I, S)
        self.has, self.child = vc.func('has', Val, S, B), vc.func('child', Val, S, Val)
        self.source = vc.func('is_source', Val, B)
        self.N = vc.func('node', I, Val)  # ghost: the node after k components
        self.root = vc.val('root')
        self.rest, self.first = vc.func('joined', I, S), vc.func('leading', I, S)
        vc.assume(z3.And(self.N(0) == self.root.z, z3.Not(self.source(self.root.z)), self.n.z >= 1))
        self.path = path or vc.str('path')
        self.writes = []
        self.interp = None

    def step(self, k):
        empty = z3.Length(self.part(k)) == 0
        self.vc.assume(z3.Implies(k >= 0, self.N(k + 1) == z3.If(empty, self.N(k), self.child(self.N(k), self.part(k)))))

    def models(self):
        def split(vc, s):
            return vc.new(SList(self.n.z, lambda i: SStr(self.part(i)), True, 'parts'))

        def strip(vc, s):
            return SStr(z3.Concat(V(''), s.z))

        def join(vc, seq):
            of = getattr(seq, 'slice_of', None)
            if of is None or getattr(of[0], 'tag', None) != 'parts':
                raise Unsupported('join')
            return Joined(z3.simplify(of[1]), z3.simplify(of[1] + of[2]))

        return {('split', '/'): split, ('join', '/'): join, ('strip', '/'): strip}


class Joined(Model):
    """the components lo to hi, joined by slashes"""
    pytype = str

    def __init__(self, lo, hi, slash=False):
        self.lo, self.hi, self.slash = lo, hi, slash

    def radd(self, vc, other):
        if other != '/' or self.slash:
            raise Unsupported('concatenation of a joined path')
        return Joined(self.lo, self.hi, True)


class Node(Model):
    def __init__(self, w, z, source):
        self.w, self.z = w, z
        self.pytype = MountSource if source else dict
        self.calls = []

    def contains(self, vc, name):
        if self.pytype is not dict:
            raise PyRaise(TypeError, ('not a container',))
        self.w.asked = zs(name)
        return SBool(self.w.has(self.z, zs(name)))

    def getitem(self, vc, name):
        if self.pytype is not dict:
            raise PyRaise(TypeError, ('not subscriptable',))
        vc.prove(self.w.has(self.z, zs(name)), 'only children that exist are entered')
        z = self.w.child(self.z, zs(name))
        return Node(self.w, z, vc.branch(self.w.source(z)))

    def setitem(self, vc, name, value):
        vc.prove(z3.Not(self.w.has(self.z, zs(name))), 'nothing that exists is replaced')
        self.w.writes.append((self.z, zs(name), value))
        vc.log_write(self)

    def truth(self, vc):
        raise Unsupported('truth of a folder')

    def m_get(self, vc, name, default=None):
        if vc.branch(self.w.has(self.z, zs(name))):
            return self.getitem(vc, name)
        return default


def self_obj(vc, w):
    self = vc.new(Obj(SubvolumesMountSource, {'mountSources': Node(w, w.root.z, False), 'rootFileInfo': vc.new(Obj(FileInfo, {'userdata': vc.new(SList(items=[None])), 'mode': 0o40755}, 'root'))}, 'self'))
    return self


def walk_inv(w, state):
    def inv(vc, L):
        k = zi(L.k)
        w.step(k)
        f = L.folder
        if not isinstance(f, Node):
            raise Unsupported('the folder of the walk')
        state['k'] = k
        return [('the walk has reached the node of the components so far', z3.And(f.z == w.N(k), z3.Not(w.source(w.N(k))), z3.BoolVal(f.pytype is dict)))]
    return inv


def unit_find(vc):
    w = World(vc)
    self, state = self_obj(vc, w), {}
    w.step(z3.IntVal(0))
    interp = Interp(vc, loops={(Q + '_find_mount_source', 0): LoopSpec(walk_inv(w, state), havoc={'folder': lambda vc, L: Node(w, w.vc.val('folder').z, False)})}, models=w.models())
    kind, r = attempt(lambda: interp.run_function(SubvolumesMountSource._find_mount_source, [self, w.path]))
    if kind == 'exc':
        vc.prove(False, 'finding a mount point does not fail')
        return
    k = state['k']
    if r is None:
        vc.prove(z3.And(k < w.n.z, z3.Length(w.part(k)) > 0, z3.Not(w.has(w.N(k), w.part(k)))), 'only what is not in the tree is not found')
        return
    point, rest, node = r
    vc.prove(isinstance(node, Node), 'a node of the tree is found')
    if node.pytype is MountSource:
        vc.prove(z3.And(k < w.n.z, node.z == w.N(k + 1), w.source(node.z)), 'the source found is on the way of the path')
        vc.prove(isinstance(point, Joined) and not point.slash, 'the mount point is a part of the path')
        vc.prove(z3.And(point.lo == 0, point.hi == k + 1), 'the mount point is the way to the source')
        if isinstance(rest, Joined):
            vc.prove(rest.slash, 'the rest of the path is absolute')
            vc.prove(z3.And(rest.lo == k + 1, rest.hi == w.n.z), 'the rest of the path is looked up in the source')
        else:
            vc.prove(isinstance(rest, str) and rest == '/', 'the rest of the path is absolute')
            vc.prove(k + 1 == w.n.z, 'the rest of the path is looked up in the source')
    else:
        vc.prove(z3.And(k == w.n.z, node.z == w.N(w.n.z), z3.Not(w.source(node.z))), 'a folder above mount points is the one named')
        vc.prove(not w.writes, 'finding changes nothing')


def unit_get_by_path(create):
    def run(vc):
        w = World(vc)
        self, state = self_obj(vc, w), {}
        created = vc.new(Obj(None, {'n': SInt(z3.IntVal(0))}, 'ghost'))

        class Walk(Node):
            def setitem(self, vc, name, value):
                vc.prove(z3.Not(w.has(self.z, zs(name))), 'nothing that exists is replaced')
                vc.prove(isinstance(value, SDict) and value.items == [], 'only empty folders are created')
                self.made = (zs(name), w.child(self.z, zs(name)))
                vc.assume(z3.Not(w.source(self.made[1])))  # what a new entry is
                w.writes.append(1)

            def getitem(self, vc, name):
                if self.pytype is not dict:
                    raise PyRaise(TypeError, ('not subscriptable',))
                made = getattr(self, 'made', None)
                if made is None:
                    vc.prove(w.has(self.z, zs(name)), 'only children that exist are entered')
                z = w.child(self.z, zs(name))
                return Walk(w, z, vc.branch(w.source(z)))

        def inv(vc, L):
            k = zi(L.k)
            w.step(k)
            f = L.folder
            if not isinstance(f, Node):
                raise Unsupported('the folder of the walk')
            state['k'] = k
            return [('the walk has reached the node of the components so far', z3.And(f.z == w.N(k), w.source(f.z) == z3.BoolVal(f.pytype is MountSource)))]

        self.fields['mountSources'] = Walk(w, w.root.z, False)
        interp = Interp(vc, loops={(Q + '_get_by_path', 0): LoopSpec(inv, havoc={'folder': lambda vc, L: Walk(w, vc.val('folder').z, vc.choose('a source'))})}, models=w.models())
        kind, r = attempt(lambda: interp.run_function(SubvolumesMountSource._get_by_path, [self, w.path, create]))
        k = state['k']
        if kind == 'exc':
            vc.prove(r.cls is RatarmountError, 'the only error is a mount point in the way')
            vc.prove(z3.And(k < w.n.z, w.source(w.N(k)), z3.Length(w.part(k)) > 0), 'a mount point is in the way')
        elif r is None:
            vc.prove(not create, 'missing folders are created')
            vc.prove(z3.And(k < w.n.z, z3.Length(w.part(k)) > 0, z3.Not(w.has(w.N(k), w.part(k)))), 'only what does not exist is missing')
        else:
            vc.prove(isinstance(r, Node), 'a node is returned')
            vc.prove(z3.And(k == w.n.z, r.z == w.N(w.n.z)), 'the node named by the path is returned')
        if not create:
            vc.prove(not w.writes, 'asking changes nothing')
    return run


def normalized(vc):
    parent, name = vc.str('parent'), vc.str('name')
    return parent, name


def unit_mount(vc):
    """mount: either exactly the entry (parent, name) is added where nothing was, or nothing changes and the caller is told"""
    w = World(vc)
    self = self_obj(vc, w)
    path = vc.watch('path', vc.str('path'))
    outcome, g = vc.pick(3, 'the parent folder'), {}
    target = Node(w, vc.val('target').z, True)
    folder = Node(w, vc.val('parent').z, outcome == 1)

    def get(i, vc, s, parent, create=False):
        g['parent'] = zs(parent)
        vc.prove(create is True, 'parent folders are created')
        if outcome == 2:
            raise PyRaise(RatarmountError, ('in the way',))
        return folder

    interp = Interp(vc, contracts={Q + '_get_by_path': get}, models=normal.MODELS)
    kind, r = attempt(lambda: interp.run_function(SubvolumesMountSource.mount, [self, path, target]))
    rel = normal.rel_facts(vc, path.z)
    if w.writes:
        vc.prove(kind == 'ok' and r is True and len(w.writes) == 1, 'the caller is told that it is mounted')
        z, name, value = w.writes[0]
        vc.prove(z3.And(z == folder.z, z3.BoolVal(value is target), z3.Length(name) > 0), 'the source is mounted below the parent folder')
        vc.prove(z3.Concat(g['parent'], V('/'), name) == z3.Concat(V('/'), rel), 'the source is mounted at the path')
        vc.prove(z3.Not(z3.Contains(name, V('/'))), 'the source is mounted at the path')
    else:
        vc.prove(kind == 'exc' or r is False, 'the caller is told that nothing is mounted')
        if 'parent' in g and outcome == 0:
            vc.prove(kind == 'exc', 'mounting over something existing is an error')
        if 'parent' not in g:
            vc.prove(z3.Length(rel) == 0, 'only the root cannot be a mount point')
        if kind == 'exc':
            vc.prove(r.cls is RatarmountError, 'mounting fails with an error for the user')


def unit_mountable(vc):
    w = World(vc)
    self = self_obj(vc, w)
    path = vc.watch('path', vc.str('path'))
    outcome, g = vc.pick(4, 'the parent folder'), {}
    folder = Node(w, vc.val('parent').z, outcome == 1)

    def get(i, vc, s, parent, create=False):
        g['parent'] = zs(parent)
        vc.prove(not create, 'asking changes nothing')
        if outcome == 2:
            raise PyRaise(RatarmountError, ('in the way',))
        return None if outcome == 3 else folder

    interp = Interp(vc, contracts={Q + '_get_by_path': get}, models=normal.MODELS)
    kind, r = attempt(lambda: interp.run_function(SubvolumesMountSource.is_mountable, [self, path]))
    if kind == 'exc':
        vc.prove(False, 'asking does not fail')
        return
    rel = normal.rel_facts(vc, path.z)
    vc.prove(not w.writes, 'asking changes nothing')
    if 'parent' not in g:
        raise Unsupported('the parent folder is not asked for')
    asked = getattr(w, 'asked', None)
    if outcome != 0 or asked is None:
        vc.prove(zb(r) == (z3.And(z3.Length(rel) > 0) if outcome == 3 else z3.BoolVal(False)), 'nothing can be mounted below mount points, anything in new folders')
        return
    vc.prove(z3.Concat(g['parent'], V('/'), asked) == z3.Concat(V('/'), rel), 'the path is looked for in its parent folder')
    vc.prove(z3.Not(z3.Contains(asked, V('/'))), 'the path is looked for in its parent folder')
    vc.prove(zb(r) == z3.And(z3.Length(rel) > 0, z3.Not(w.has(folder.z, asked))), 'something can be mounted where nothing is')


def unit_view(method):
    """lookup, versions and listings ask the source found, or describe the folder"""
    def run(vc):
        w = World(vc)
        self = self_obj(vc, w)
        path, point, rest = vc.str('path'), vc.str('mountPoint'), vc.str('rest')
        outcome = vc.pick(3, 'what is found')
        calls = []
        version = vc.int('version')
        exists = vc.choose('it exists in the source')
        entry = vc.new(Obj(FileInfo, {'userdata': vc.new(SList(items=['of the source'])), 'mode': 1}, 'entry'))
        listing = vc.new(SList(items=['x'])) if exists else None

        class Mounted(Model):
            pytype = MountSource

            def m_lookup(self, vc, p, fileVersion=0):
                calls.append(('lookup', p, fileVersion))
                return entry if exists else None

            def m_versions(self, vc, p):
                calls.append(('versions', p, 0))
                return version

            def m_list(self, vc, p):
                calls.append(('list', p, 0))
                return listing

            def m_list_mode(self, vc, p):
                calls.append(('list_mode', p, 0))
                return listing

        names = ['x', 'y']
        found = None if outcome == 0 else (point, rest, Mounted()) if outcome == 1 else (path, '', vc.new(SDict(items=[[n, 'child'] for n in names])))

        def find(i, vc, s, p):
            vc.prove(p is path, 'the path asked for is found')
            return found

        def clone(i, vc, s):
            return vc.new(Obj(FileInfo, {'userdata': vc.new(SList(items=[None])), 'mode': s.fields['mode']}, 'clone'))

        root = self.fields['rootFileInfo']
        interp = Interp(vc, contracts={Q + '_find_mount_source': find, 'ratarmountcore.mountsource.MountSource:FileInfo.clone': clone})
        args = [self, path] + ([version] if method == 'lookup' else [])
        kind, r = attempt(lambda: interp.run_function(getattr(SubvolumesMountSource, method), args))
        if kind == 'exc':
            vc.prove(False, 'a query does not fail')
            return
        if outcome == 0:
            vc.prove(r is None or (method == 'versions' and r == 0), 'what is not in the tree does not exist')
        elif outcome == 1:
            vc.prove(len(calls) == 1 and calls[0][0] == method and calls[0][1] is rest, 'the source found is asked for the rest of the path')
            if method == 'lookup':
                vc.prove(zi(calls[0][2]) == version.z, 'the version asked for is looked up')
                vc.prove(r is (entry if exists else None), 'the entry of the source is returned')
                if exists:
                    vc.prove(entry.fields['userdata'].items == ['of the source', point], 'the entry remembers its mount point')
            elif method == 'versions':
                vc.prove(r is version, 'the versions are those of the source')
            else:
                vc.prove(r is listing, 'the listing is that of the source')
        else:
            vc.prove(not calls, 'folders above mount points are no sources')
            if method == 'lookup':
                vc.prove(isinstance(r, Obj) and r is not root and r.fields['mode'] == root.fields['mode'] and r.fields['userdata'].items == [None], 'folders above mount points are folders')
            elif method == 'versions':
                vc.prove(zi(r) == 1, 'folders above mount points have one version')
            else:
                vc.prove(isinstance(r, SDict) and [k for k, _v in r.items] == names, 'folders above mount points list their children')
                vc.prove(all((x == root.fields['mode']) if method == 'list_mode' else (isinstance(x, Obj) and x is not root) for _n, x in r.items), 'children are folders')
    return run


ORACLES = [
    Oracle('histories', run_histories, [SubvolumesMountSource.mount, SubvolumesMountSource.unmount, SubvolumesMountSource.is_mountable],
           'all histories of up to 2 operations and a sample of those of 3 (all of 4, in time) on 8 mount points'),
    Oracle('random histories', run_random, [SubvolumesMountSource.unmount, SubvolumesMountSource._find_mount_source], '1200 (9000) histories of up to 11 operations on random sources'),
]
UNITS = [
    Unit('the source of a path', unit_find, [SubvolumesMountSource._find_mount_source]),
    Unit('the node of a path', unit_get_by_path(False), [SubvolumesMountSource._get_by_path]),
    Unit('the node of a path, created', unit_get_by_path(True), [SubvolumesMountSource._get_by_path]),
    Unit('mounting', unit_mount, [SubvolumesMountSource.mount]),
    Unit('asking for a free mount point', unit_mountable, [SubvolumesMountSource.is_mountable]),
] + [Unit(f'{m} of a path', unit_view(m), [getattr(SubvolumesMountSource, m)]) for m in ('lookup', 'versions', 'list', 'list_mode')]
LEVEL = 'proof'
TRUSTED = ['posixpath.normpath (contract validated on all strings up to 7 characters by C07)']
