"""Contracts on how every layer hands an entry to the source it came from and restores it, and runs on random compositions with failing sources."""
import io
import stat
import dataclasses

import z3

from checks import tarlib
from checks.common import quiet
from checks.compose import TreeSource, all_paths, attributes, innermost, random_tree, state
from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp
from pyvc.values import Host, Model, Obj, PyRaise, SBool, SDict, SInt, SList, SStr, Unsupported, zb, zi, zs
from ratarmountcore.mountsource import FileInfo, MountSource
from ratarmountcore.mountsource.compositing import automount
from ratarmountcore.mountsource.compositing.automount import AutoMountLayer
from ratarmountcore.mountsource.compositing.removeprefix import RemovePrefixMountSource
from ratarmountcore.mountsource.compositing.subvolumes import SubvolumesMountSource
from ratarmountcore.mountsource.compositing.union import UnionMountSource
from ratarmountcore.mountsource.compositing.versioning import FileType, FileVersionLayer
from ratarmountcore.utils import RatarmountError

M = 'ratarmountcore.mountsource.'
FIELDS = ('size', 'mtime', 'mode', 'linkname', 'uid', 'gid')
METHODS = ('open', 'read', 'list_xattr', 'get_xattr', 'get_mount_source')


# ------------------------------------------------------------------------------------------------ proofs
class Below(Model):
    """what belongs to the layers below"""

    def eq(self, vc, other):
        return self is other


class Result(Model):
    pass


def entry(vc, below, top):
    f = {n: vc.val(n) for n in FIELDS}
    ud = vc.new(SList(items=[*below, top]))
    e = vc.new(Obj(FileInfo, {**f, 'userdata': ud}, 'entry'))
    e.before = (dict(f), ud, list(ud.items))
    return e


def same_items(items, want):
    return items is not None and len(items) == len(want) and all(a is b for a, b in zip(items, want))


def unchanged(vc, e):
    f, ud, items = e.before
    vc.prove(all(e.fields[n] is f[n] for n in FIELDS), 'the metadata of the entry is unchanged')
    vc.prove(e.fields['userdata'] is ud and same_items(ud.items, items), 'the entry can be used again afterwards')


def clone(interp, vc, e):
    """contract of FileInfo.clone, proved by unit_clone"""
    ud = vc.new(SList(items=list(e.fields['userdata'].items)))
    return vc.new(Obj(FileInfo, {**{n: e.fields[n] for n in FIELDS}, 'userdata': ud}, 'clone'))


def unit_clone(vc):
    e = entry(vc, [Below() for _ in range(vc.pick(3, 'layers'))], Below())
    copies = []

    def replace(vc, o, **changes):
        vc.prove(o is e and not changes, 'the whole entry is copied')
        copies.append(vc.new(Obj(FileInfo, dict(o.fields), 'copy')))
        return copies[-1]
    r = Interp(vc, models={dataclasses.replace: replace}).run_function(FileInfo.clone, [e])
    vc.prove(len(copies) == 1 and r is copies[0], 'a copy is returned')
    vc.prove(all(r.fields[n] is e.fields[n] for n in FIELDS), 'a copy has the same metadata')
    vc.prove(same_items(r.fields['userdata'].items, e.before[2]) and r.fields['userdata'] is not e.fields['userdata'], 'a copy has the same layers in its own list')
    unchanged(vc, e)


class Delegate(Model):
    """a source that knows its own entries, and may fail at every call"""
    pytype = MountSource

    def __init__(self, e, below, deeper=None):
        self.e, self.below, self.deeper = e, below, deeper
        self.calls = []

    def eq(self, vc, other):
        return self is other

    def asked(self, vc, name, fi, *args):
        vc.prove(isinstance(fi, Obj) and fi.cls is FileInfo, 'the source gets an entry')
        vc.prove(all(fi.fields[n] is self.e.fields[n] for n in FIELDS), 'the source gets the metadata of its entry')
        vc.prove(same_items(fi.fields['userdata'].items, self.below), 'the source gets exactly what it put into the entry')
        self.calls.append((name, args))
        if vc.choose('the source fails'):
            raise PyRaise(OSError, ('fails',))
        return Result()

    def m_open(self, vc, fi, buffering=-1):
        return self.done(self.asked(vc, 'open', fi, buffering))

    def m_read(self, vc, fi, size, offset):
        return self.done(self.asked(vc, 'read', fi, size, offset))

    def m_list_xattr(self, vc, fi):
        return self.done(self.asked(vc, 'list_xattr', fi))

    def m_get_xattr(self, vc, fi, key):
        return self.done(self.asked(vc, 'get_xattr', fi, key))

    def done(self, r):
        self.result = r
        return r

    def m_get_mount_source(self, vc, fi):
        self.asked(vc, 'get_mount_source', fi)
        if self.deeper is None:
            # the default: the source itself with the very entry it was given
            self.result = (self, fi)
            return SList(items=['/', self, fi], mutable=False)
        self.result = (self.deeper, self.deeper.e)
        return SList(items=['/deeper', self.deeper, self.deeper.e], mutable=False)


def arguments(vc, method):
    return {'open': [SInt(vc.int('buffering').z)], 'read': [vc.int('size'), vc.int('offset')], 'list_xattr': [], 'get_xattr': [vc.val('key')],
            'get_mount_source': []}[method]


def call(vc, interp, cls, method, self, e):
    args = arguments(vc, method)
    f = getattr(cls, method)
    kind, r = attempt(lambda: interp.run_function(f, [self, e, *args]))
    return kind, r, args


def judge(vc, d, method, kind, r, args, e):
    """the delegate was asked exactly once with the same arguments and its answer, or its error, is the answer"""
    unchanged(vc, e)
    vc.prove(len(d.calls) == 1 and d.calls[0][0] == method, 'the source of the entry is asked')
    vc.prove(len(d.calls[0][1]) == len(args) and all(a is b for a, b in zip(d.calls[0][1], args)), 'the source is asked the same')
    failed = not hasattr(d, 'result')
    vc.prove(failed == (kind == 'exc'), 'it fails exactly if the source fails')
    if failed:
        vc.prove(r.cls is OSError, 'the error is that of the source')
    elif method != 'get_mount_source':
        vc.prove(r is d.result, 'the answer is that of the source')


def triple(vc, r):
    items = r.items if isinstance(r, SList) else r
    vc.prove(isinstance(items, (tuple, list)) and len(items) == 3, 'a mount point, a source and an entry')
    return items


def usable(vc, r, source, info, below):
    """the answer of get_mount_source: source and an entry with which it can be used, now that the layer is done with it"""
    _p, src, fi = triple(vc, r)
    vc.prove(src is source, 'the source is the one the entry is from')
    vc.prove(fi is info and same_items(fi.fields['userdata'].items, below), 'the entry returned is one of the source returned')


def not_delegated(vc, self, d, method, kind, r, e, errors):
    """entries of the layer itself: folders without contents and attributes"""
    unchanged(vc, e)
    vc.prove(not d.calls, 'no source is asked about what the layer made up')
    if method in ('open', 'read'):
        vc.prove(kind == 'exc' and r.cls in errors, 'a folder of the layer cannot be opened')
    elif method == 'get_mount_source':
        vc.prove(kind == 'ok' and triple(vc, r)[0] == '/', 'a folder of the layer belongs to the layer')
        vc.prove(triple(vc, r)[1] is self and triple(vc, r)[2] is e, 'a folder of the layer belongs to the layer')
    else:
        vc.prove(kind == 'ok' and (r is None if method == 'get_xattr' else isinstance(r, SList) and r.items == []), 'a folder of the layer has no attributes')


CONTRACTS = {M + 'MountSource:FileInfo.clone': clone}


def below_of(vc):
    return [Below() for _ in range(vc.pick(3, 'layers below'))]


def delegate(vc, method, make_top):
    below = below_of(vc)
    d = Delegate(None, below)
    e = entry(vc, below, make_top(d))
    d.e = e
    if method == 'get_mount_source' and vc.choose('the source is a composition too'):
        own = [Below()]
        deep = Delegate(None, own)
        deep.e = vc.new(Obj(FileInfo, {**{n: vc.val('deep_' + n) for n in FIELDS}, 'userdata': vc.new(SList(items=list(own)))}, 'deeper entry'))
        d.deeper = deep
    return d, e


def judge_source(vc, d, kind, r):
    if kind == 'ok':
        source, info = d.result
        usable(vc, r, source, info, d.below if d.deeper is None else d.deeper.below)


def unit_union(method):
    def run(vc):
        root = vc.choose('it is the root of the union')
        d, e = delegate(vc, method, lambda d: None if root else d)
        self = vc.new(Obj(UnionMountSource, {}, 'union'))
        kind, r, args = call(vc, Interp(vc, contracts=CONTRACTS), UnionMountSource, method, self, e)
        if root:
            not_delegated(vc, self, d, method, kind, r, e, (AssertionError,))
            return
        judge(vc, d, method, kind, r, args, e)
        if method == 'get_mount_source':
            judge_source(vc, d, kind, r)
    return run


def unit_subvolumes(method):
    def run(vc):
        root = vc.choose('it is a folder above the mount points')
        d, e = delegate(vc, method, lambda d: None if root else vc.str('subvolume'))
        top = e.before[2][-1]
        self = vc.new(Obj(SubvolumesMountSource, {}, 'subvolumes'))
        gone = []

        def mounted(interp, vc, s, name):
            vc.prove(s is self and name is top, 'the source is the one mounted where the entry is from')
            if vc.choose('it was unmounted'):
                gone.append(1)
                raise PyRaise(RatarmountError, ('gone',))
            return d

        def normpath(vc, p):
            return vc.val('joined')
        import posixpath
        interp = Interp(vc, contracts={**CONTRACTS, M + 'compositing.subvolumes:SubvolumesMountSource._get_mounted': mounted}, models={posixpath.normpath: normpath})
        kind, r, args = call(vc, interp, SubvolumesMountSource, method, self, e)
        if root:
            not_delegated(vc, self, d, method, kind, r, e, (ValueError,))
            return
        if gone:
            unchanged(vc, e)
            vc.prove(kind == 'exc' and r.cls is RatarmountError and not d.calls, 'what was unmounted fails')
            return
        judge(vc, d, method, kind, r, args, e)
        if method == 'get_mount_source':
            judge_source(vc, d, kind, r)
    return run


def unit_versions(method):
    def run(vc):
        folder = vc.choose('it is a folder of versions')
        d, e = delegate(vc, method, lambda d: FileType.VERSIONS_FOLDER if folder else FileType.FILE)
        self = vc.new(Obj(FileVersionLayer, {'mountSource': d}, 'versions'))
        kind, r, args = call(vc, Interp(vc, contracts=CONTRACTS), FileVersionLayer, method, self, e)
        if folder:
            not_delegated(vc, self, d, method, kind, r, e, (FileNotFoundError,))
            return
        judge(vc, d, method, kind, r, args, e)
        if method == 'get_mount_source':
            judge_source(vc, d, kind, r)
    return run


def own_entry(vc, e):
    """an entry of the layer itself, and when it equals e"""
    f = {n: vc.val('own_' + n) for n in FIELDS}
    same = vc.choose('the layers of the entries are the same')
    own = vc.new(Obj(FileInfo, {**f, 'userdata': vc.new(SList(items=list(e.before[2]) if same else [Below()] * 4))}, 'entry of the layer'))
    return own, z3.And(z3.BoolVal(same), *[f[n].z == e.fields[n].z for n in FIELDS])


class Mounted(Model):
    pytype = dict

    def __init__(self, key, info):
        self.key, self.info = key, info

    def getitem(self, vc, key):
        vc.prove(key is self.key, 'the source is the one mounted where the entry is from')
        return self.info


def unit_automount(method):
    def run(vc):
        d, e = delegate(vc, 'get_mount_source', lambda d: vc.str('mountPoint'))
        top = e.before[2][-1]
        root, is_root = own_entry(vc, e)
        info = vc.new(Obj(automount.AutoMountLayer.MountInfo, {'mountSource': d, 'rootFileInfo': root, 'recursionDepth': vc.nat('depth')}, 'mount'))
        self = vc.new(Obj(AutoMountLayer, {'mounted': Mounted(top, info)}, 'automount'))

        def join(vc, a, b):
            vc.prove(a is top, 'the mount point is below that of the entry')
            return vc.val('joined')
        import os
        kind, r, args = call(vc, Interp(vc, contracts=CONTRACTS, models={os.path.join: join}), AutoMountLayer, method, self, e)
        if method in ('list_xattr', 'get_xattr') and vc.branch(z3.And(is_root, zs(top) != z3.StringVal('/'))):
            unchanged(vc, e)
            vc.prove(not d.calls and kind == 'ok' and (r is None if method == 'get_xattr' else isinstance(r, SList) and r.items == []),
                     'the folder of a mount point has no attributes')
            return
        unchanged(vc, e)
        vc.prove([c[0] for c in d.calls[:1]] == ['get_mount_source'], 'the source of the entry is asked')
        if not hasattr(d, 'result'):
            vc.prove(kind == 'exc' and r.cls is OSError and len(d.calls) == 1, 'it fails if the source fails')
            return
        if method == 'get_mount_source':
            vc.prove(len(d.calls) == 1 and kind == 'ok', 'the source is asked once')
            judge_source(vc, d, kind, r)
            return
        src = d if d.deeper is None else d.deeper
        calls = src.calls[1:] if src is d else src.calls
        vc.prove(len(calls) == 1 and calls[0][0] == method, 'the source the entry is from is asked')
        vc.prove(len(calls[0][1]) == len(args) and all(a is b for a, b in zip(calls[0][1], args)), 'the source is asked the same')
        if kind == 'exc':
            vc.prove(r.cls is OSError, 'the error is that of the source')
        else:
            vc.prove(r is src.result, 'the answer is that of the source')
    return run


def unit_prefix(method):
    def run(vc):
        d, e = delegate(vc, method, lambda d: None)
        e.fields['userdata'].items.pop()  # this layer puts nothing into entries
        e.before[2].pop()
        own, is_own = own_entry(vc, e)
        self = vc.new(Obj(RemovePrefixMountSource, {'mountSource': d, '_directory_info': own}, 'prefix'))
        kind, r, args = call(vc, Interp(vc, contracts=CONTRACTS), RemovePrefixMountSource, method, self, e)
        if vc.branch(is_own):
            not_delegated(vc, self, d, method, kind, r, e, (FileNotFoundError,))
            return
        judge(vc, d, method, kind, r, args, e)
        if method == 'get_mount_source':
            judge_source(vc, d, kind, r)
    return run


# ------------------------------------------------------------------------------------------------ runs
class Leaf(TreeSource):
    """fails at every call that gets an entry, if told so"""

    def get_mount_source(self, fileInfo):
        self._check(fileInfo)
        return '/', self, fileInfo


NESTED = {'x': b'inner x', 'y/z': b'inner z' * 5, 'y/empty': b''}


def nested():
    return tarlib.build([tarlib.Member(n.encode(), v) for n, v in NESTED.items()])


def leaf(rng, k, leaves):
    t = random_tree(rng, f's{k}', names='ab', depth=2, n=rng.randrange(0, 6))
    s = Leaf({}, immutable=t.immutable, names_only=t.names_only, label=f's{k}')
    s.folders, s.files = t.folders, t.files
    if rng.random() < .5 and '/n.tar' not in s.files:
        s.add('/n.tar', [nested()])
    leaves.append(s)
    return s


def random_composition(rng, depth, leaves, text, auto=False, top=False):
    """-> mount source; text: lines describing it"""
    kind = rng.choice(['leaf', 'union', 'subvolumes', 'versions' if top else 'union', 'automount', 'prefix']) if depth > 0 else 'leaf'
    if kind == 'automount' and auto:
        kind = 'union'
    at = len(text)
    text.append('')
    sub = lambda **kw: random_composition(rng, depth - 1, leaves, text, **kw)  # noqa: E731
    if kind == 'leaf':
        s = leaf(rng, len(leaves), leaves)
        text[at] = repr(s.describe())[:400]
        return s
    if kind == 'union':
        parts = [sub() for _ in range(rng.randrange(1, 4))]
        text[at] = f'union of {len(parts)}'
        return UnionMountSource(parts)
    if kind == 'subvolumes':
        at_ = rng.sample(['a', 'b', 'c/d', 'c/e'], rng.randrange(1, 4))
        r = SubvolumesMountSource({p: sub() for p in at_})
        text[at] = f'subvolumes at {at_}'
        return r
    if kind == 'versions':
        text[at] = 'versions of'
        return FileVersionLayer(sub())
    if kind == 'automount':
        kw = {'recursive': True, 'recursionDepth': 1, 'lazyMounting': rng.random() < .5, 'stripRecursiveTarExtension': rng.random() < .3}
        text[at] = f'automount {kw}'
        return AutoMountLayer(sub(auto=True), **kw)
    prefix = rng.choice(['/p', '/a', '/p/q'])
    text[at] = f'below {prefix}'
    return RemovePrefixMountSource(prefix, sub(auto=auto))


def walk(m, p='/', depth=6, out=None):
    out = [] if out is None else out
    out.append(p)
    if depth and len(out) < 80:
        for n in sorted(m.list(p) or ()):
            q = p.rstrip('/') + '/' + n
            info = m.lookup(q)
            if info is not None and stat.S_ISDIR(info.mode):
                walk(m, q, depth - 1, out)
            else:
                out.append(q)
    return out


def use(m, info, rng):
    """every operation on an entry"""
    ops = {'open': lambda: contents(m.open(info)), 'read': lambda: m.read(info, 5, 1), 'list_xattr': lambda: list(m.list_xattr(info)),
           'get_xattr': lambda: m.get_xattr(info, 'user.token'), 'get_mount_source': lambda: through(m, info)}
    names = list(ops)
    rng.shuffle(names)
    out = {}
    for n in names:
        try:
            out[n] = ops[n]()
        except (OSError, AssertionError, ValueError, RatarmountError) as e:
            out[n] = type(e)
    return out


def contents(f):
    with f:
        return f.read()


def through(m, info):
    _p, source, entry_ = m.get_mount_source(info)
    return (source.read(entry_, 5, 1), source.list_xattr(entry_), source.get_xattr(entry_, 'user.token')) if not stat.S_ISDIR(info.mode) else source.list_xattr(entry_)


def run_compositions(ctx):
    quiet()
    for _ in range(ctx.budget(400, 6000)):
        if ctx.out_of_time():
            return
        leaves, text = [], []
        try:
            m = random_composition(ctx.rng, ctx.rng.randrange(1, 5), leaves, text, top=True)
        except RatarmountError:
            continue  # layers that must not be stacked
        with ctx.case({'composition': text}) as c:
            entries = []
            paths = walk(m)
            paths += [p + '.versions/1' for p in ctx.rng.sample(paths, min(3, len(paths)))]
            for p in paths:
                info = m.lookup(p)
                if info is None:
                    continue
                entries.append((p, info, state(info)))
                other = m.lookup(p)
                other.userdata.append('junk')
                other.mode = 0
                third = m.lookup(p)
                c.equal(third.mode, info.mode, 'changing an entry does not change others', path=p)
                c.equal(len(third.userdata), len(info.userdata), 'changing an entry does not change others', path=p)
            ctx.rng.shuffle(entries)
            answers = {}
            for p, info, s in entries:
                answers[p] = check_use(c, m, p, info, s, ctx.rng)
            for s in leaves:
                s.failing = True
            for p, info, s in entries:
                token = innermost(info)
                got = use(m, info, ctx.rng)
                c.equal(state(info), s, 'an error leaves the entry as it was', path=p)
                if token is not None and not stat.S_ISDIR(info.mode):
                    c.check(got['open'] is OSError and got['read'] is OSError, 'the error of the source is reported', path=p, got=got)
            for s in leaves:
                s.failing = False
            for p, info, s in entries:
                c.equal(check_use(c, m, p, info, s, ctx.rng), answers[p], 'an entry can be used again after an error', path=p)
            c.equal([s.misuse for s in leaves], [[] for _ in leaves], 'every source gets only its own entries')
        m.__exit__(None, None, None)


def check_use(c, m, p, info, s, rng):
    got = use(m, info, rng)
    c.equal(state(info), s, 'using an entry leaves it as it was', path=p)
    token = innermost(info)
    if token is None:
        if not stat.S_ISDIR(info.mode) and not p.split('/')[-1].endswith('.versions'):
            want = NESTED.get(p.split('/n/')[-1].split('/n.tar/')[-1].split('.versions')[0])
            c.check(want is not None, 'what no source has comes from a nested archive', path=p)
            c.equal((got['open'], got['read']), (want, want[1:6]), 'a nested entry is read from its archive', path=p)
        return got
    if stat.S_ISDIR(info.mode):
        return got
    want = token.source.content(token)
    c.equal((got['open'], got['read']), (want, want[1:6]), 'an entry is read from its source', path=p)
    c.equal((got['list_xattr'], got['get_xattr']), (['user.token'], repr(token).encode()), 'attributes are those of the source', path=p)
    c.equal(got['get_mount_source'], (want[1:6], ['user.token'], repr(token).encode()), 'the source named for an entry can use it', path=p)
    return got


LAYERS = (UnionMountSource, SubvolumesMountSource, FileVersionLayer, AutoMountLayer, RemovePrefixMountSource)
ORACLES = [
    Oracle('random compositions', run_compositions, [getattr(cls, m) for cls in LAYERS for m in METHODS],
           '400 (6000) compositions of up to 4 layers of every kind over sources that fail on demand; every entry used five ways before, during and after failures'),
]
UNITS = [Unit('a copied entry has its own layers', unit_clone, [FileInfo.clone])] + [
    Unit(f'{name} {m}', mk(m), [getattr(cls, m)])
    for name, mk, cls in (('union', unit_union, UnionMountSource), ('subvolumes', unit_subvolumes, SubvolumesMountSource), ('versions', unit_versions, FileVersionLayer),
                          ('recursive mounting', unit_automount, AutoMountLayer), ('prefix', unit_prefix, RemovePrefixMountSource))
    for m in METHODS]
TRUSTED = ['dataclasses.replace copies an entry', 'equality of two entries compares their fields',
           'entries with more than two layers below the one considered behave like those with two (the code only uses the last element)']
LEVEL = 'proof'
