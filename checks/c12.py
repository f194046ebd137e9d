"""Contracts for the version layer over any mount source, and runs on random trees with special names and link graphs."""
import os
import stat

import z3

from checks.common import quiet
from checks.compose import TreeSource, all_paths, attributes, innermost
from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp, LoopSpec
from pyvc.values import Host, Model, Obj, PyRaise, SBool, SDict, SInt, SList, SStr, Unsupported, zb, zi, zs
from ratarmountcore.mountsource import FileInfo, MountSource
from ratarmountcore.mountsource.compositing import versioning
from ratarmountcore.mountsource.compositing.versioning import FileType, FileVersionLayer

Q = 'ratarmountcore.mountsource.compositing.versioning:FileVersionLayer.'
S, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()
V = z3.StringVal
SUFFIX = '.versions'


# ------------------------------------------------------------------------------------------------ reference and runs
def decode(source, path):
    """what a path means, written from the documentation: None, ('folder', file) or ('entry', path, version)"""
    here, version, parts = '', 0, [p for p in path.split('/') if p]
    k = 0
    while k < len(parts):
        nxt = here + '/' + parts[k]
        if source.versions(nxt):
            here, version = nxt, 0
        elif parts[k].endswith(SUFFIX) and parts[k] != SUFFIX and source.versions(nxt[:-len(SUFFIX)]):
            here, version = nxt[:-len(SUFFIX)], 0
            if k + 1 == len(parts):
                return ('folder', here)
            k += 1
            if not parts[k].isascii() or not parts[k].isdigit() or parts[k] != str(int(parts[k])):
                return None
            version = int(parts[k])
        else:
            return None
        k += 1
    return ('entry', here or '/', version)


def hard(info):
    return not stat.S_ISREG(info.mode) and not stat.S_ISLNK(info.mode) and bool(info.linkname)


def resolved(source, path):
    """all entries a path may stand for; more than one only for links to themselves, None: nothing to compare with"""
    info, seen = source.lookup(path), {path}
    while info is not None and hard(info):
        target = '/' + info.linkname.lstrip('/')
        if target == path:
            rest = [source.lookup(path, k + 1) for k in range(source.versions(path))]
            if any(hard(i) and '/' + i.linkname.lstrip('/') != path for i in rest):
                return None
            return [i for i in rest if not hard(i)]
        if target in seen:
            return None
        seen.add(target)
        path = target
        info = source.lookup(path)
    return [] if info is None else [info]


def check_layer(c, layer, source, paths):
    for p in paths:
        got = layer.lookup(p)
        if source.versions(p):
            want = resolved(source, p)
            if want is not None:
                if not want:
                    c.check(got is None or hard(got), 'a link to nothing leads to nothing', path=p)
                else:
                    c.check(got is not None and any(attributes(got) == attributes(w) and repr(innermost(got)) == repr(innermost(w)) for w in want),
                            'an existing path is the entry it names', path=p, got=repr(got), expected=repr(want))
        else:
            want = decode(source, p)
            if want is None:
                c.check(got is None, 'nothing else exists', path=p, got=repr(got))
            elif want[0] == 'folder':
                c.check(got is not None and stat.S_ISDIR(got.mode), 'everything has a folder of its versions', path=p)
                n = source.versions(want[1])
                c.equal(sorted(layer.list(p) or [], key=int), [str(k + 1) for k in range(n)], 'the folder of versions lists all versions', path=p)
                c.equal(sorted(layer.list_mode(p) or [], key=int), [str(k + 1) for k in range(n)], 'the folder of versions lists all versions', path=p)
                for k in range(n):
                    i, w = layer.lookup(p + '/' + str(k + 1)), source.lookup(want[1], k + 1)
                    c.check(i is not None and repr(innermost(i)) == repr(innermost(w)) and attributes(i) == attributes(w), 'each version is the stored one', path=p, version=k + 1)
                    if stat.S_ISREG(w.mode):
                        with layer.open(i) as f:
                            c.equal(f.read(), source.content(w.userdata[0]), 'each version has the stored contents', path=p, version=k + 1)
                        c.equal(layer.read(i, 100, 1), source.content(w.userdata[0])[1:101], 'each version has the stored contents', path=p, version=k + 1)
                c.check(layer.lookup(p + '/' + str(n + 1)) is None, 'there are no further versions', path=p)
            elif want[2] == 0 or source.versions(want[1]) >= want[2]:
                w = source.lookup(want[1], want[2])
                c.check(got is not None and repr(innermost(got)) == repr(innermost(w)), 'paths inside folders of versions lead to the entries', path=p)
        for method in ('list', 'list_mode'):
            got = getattr(layer, method)(p)
            if source.versions(p):
                want = getattr(source, method)(p)
                c.equal(None if got is None else sorted(got), None if want is None else sorted(want), 'listing is as without the layer', path=p)
            elif decode(source, p) is None:
                c.check(got is None, 'what does not exist is not listed', path=p, method=method, got=repr(got))
        c.equal(layer.versions(p), source.versions(p), 'versions are counted as without the layer', path=p)


def run_random(ctx):
    quiet()
    names = ['a', 'b', 'a' + SUFFIX, SUFFIX, '1', '2', 'a' + SUFFIX + SUFFIX, 'aversions']
    for _ in range(ctx.budget(400, 6000)):
        if ctx.out_of_time():
            return
        s = TreeSource({}, names_only=ctx.rng.random() < .2)
        for _k in range(ctx.rng.randrange(1, 8)):
            p = ''.join('/' + ctx.rng.choice(names) for _d in range(ctx.rng.choice([1, 1, 1, 2, 2, 3])))
            if p in s.folders or p in s.files or any(q.startswith(p + '/') for q in s.files) or any(p.startswith(q + '/') for q in s.files):
                continue
            vs = []
            for j in range(ctx.rng.choice([1, 1, 2, 3])):
                r = ctx.rng.random()
                if r < .2:
                    vs.append(('hard', ctx.rng.choice(['', '/']) + ctx.rng.choice([p[1:], 'a', 'b', 'a/b', 'nothing', *[q[1:] for q in s.files]])))
                elif r < .25:
                    vs.append(('link', 'a'))
                else:
                    vs.append(f'{p}{j}'.encode())
            s.add(p, vs)
        paths = set(s.files) | set(s.folders)
        for p in list(paths):
            for t in ('', SUFFIX):
                paths |= {p.rstrip('/') + t + x for x in ('', '/1', '/2', '/3', '/9', '/x', '/1/b', '/1/b' + SUFFIX, '/1/b' + SUFFIX + '/1', '/01', SUFFIX, SUFFIX + '/1', '/nothing')}
        paths |= {'/nothing', '/nothing' + SUFFIX, '/nothing' + SUFFIX + '/1', '/' + SUFFIX, '/a/nothing' + SUFFIX}
        with ctx.case({'source': s.describe()}) as c:
            check_layer(c, FileVersionLayer(s), s, sorted(paths - {SUFFIX, ''}))


def run_links(ctx):
    """all graphs of hard links between a few names"""
    quiet()
    names = ['a', 'b', 'c']
    import itertools
    choices = [b'x', *[('hard', n) for n in names]]
    n = 2 if not ctx.thorough else 3
    for combo in itertools.product(choices, repeat=2 * n):
        if ctx.out_of_time():
            return
        s = TreeSource({'/' + names[k]: list(combo[2 * k:2 * k + 2]) for k in range(n)} | ({} if n == 3 else {'/c': [b'c']}))
        with ctx.case({'source': s.describe()}) as c:
            check_layer(c, FileVersionLayer(s), s, ['/a', '/b', '/c'])


def run_tar(ctx):
    """archives with several versions and hard links"""
    import io
    from checks import tarlib
    from ratarmountcore.mountsource.formats.tar import SQLiteIndexedTar
    quiet()
    for _ in range(ctx.budget(40, 400)):
        if ctx.out_of_time():
            return
        versions, members = {}, []
        for k in range(ctx.rng.randrange(1, 9)):
            n = ctx.rng.choice(['f', 'g', 'd/f', 'f' + SUFFIX])
            if ctx.rng.random() < .2 and versions and n not in versions:
                t = ctx.rng.choice(list(versions))
                members.append(tarlib.Member(n.encode(), type_=b'1', linkname=t.encode()))
                versions.setdefault(n, []).append(('to', t))
            else:
                d = os.urandom(ctx.rng.randrange(0, 900))
                members.append(tarlib.Member(n.encode(), d))
                versions.setdefault(n, []).append(d)
        with ctx.case({'members': [(m.name, len(m.content), m.linkname) if hasattr(m, 'linkname') else repr(m) for m in members]}) as c:
            tar = SQLiteIndexedTar(fileObject=io.BytesIO(tarlib.build(members)), writeIndex=False)
            layer = FileVersionLayer(tar)
            for n, vs in versions.items():
                v = vs[-1]
                while isinstance(v, tuple):
                    v = versions[v[1]][-1]
                i = layer.lookup('/' + n)
                c.check(i is not None, 'every file exists', path=n)
                with layer.open(i) as f:
                    c.equal(f.read(), v, 'a file has its newest contents, links those of the file they name', path=n)
                if n + SUFFIX in versions:
                    continue
                c.equal(sorted(layer.list(f'/{n}{SUFFIX}'), key=int), [str(k + 1) for k in range(len(vs))], 'all versions are listed', path=n)
                for k, w in enumerate(vs):
                    if isinstance(w, bytes):
                        with layer.open(layer.lookup(f'/{n}{SUFFIX}/{k + 1}')) as f:
                            c.equal(f.read(), w, 'each version has the stored contents', path=n, version=k + 1)
            tar.__exit__(None, None, None)


# ------------------------------------------------------------------------------------------------ proofs
class Src(Model):
    """any mount source: a path exists or not; entries remember where they are from"""
    pytype = MountSource

    def __init__(self, vc):
        self.exists = vc.func('exists', S, B)
        self.count = vc.func('versions', S, I)
        self.asked = []

    def m_lookup(self, vc, path, fileVersion=0):
        p, v = zs(path), zi(fileVersion)
        vc.assume(z3.And(self.count(p) >= 0, self.exists(p) == (self.count(p) > 0)))
        if not vc.branch(z3.And(v <= self.count(p), v > -self.count(p))):
            return None
        r = vc.new(Obj(FileInfo, {'userdata': vc.new(SList(items=['source'])), 'mode': vc.int('mode'), 'linkname': vc.str('linkname'), 'mtime': vc.int('mtime'),
                                  'uid': vc.int('uid'), 'gid': vc.int('gid'), 'size': vc.nat('size')}, 'entry'))
        r.origin = (p, v)
        return r

    def m_exists(self, vc, path):
        p = zs(path)
        vc.assume(z3.And(self.count(p) >= 0, self.exists(p) == (self.count(p) > 0)))
        return SBool(self.exists(p))

    def m_versions(self, vc, path):
        p = zs(path)
        vc.assume(z3.And(self.count(p) >= 0, self.exists(p) == (self.count(p) > 0)))
        return SInt(self.count(p))


def unit_decode(vc):
    """the special folders are decoded component by component"""
    src = Src(vc)
    path = vc.watch('path', vc.str('path'))
    n = vc.nat('components')
    part = vc.func('part', I, S)
    canon, num, text = vc.func('is_number', S, B), vc.func('number', S, I), vc.func('text', I, S)
    P, special, ver, dead = vc.func('p_', I, S), vc.func('special_', I, B), vc.func('version_', I, I), vc.func('dead_', I, B)
    vc.assume(n.z >= 1)
    vc.assume(z3.And(P(0) == V(''), z3.Not(special(0)), z3.Not(dead(0))))

    def step(k):
        """the meaning of component k"""
        s = part(k)
        nxt = z3.Concat(P(k), V('/'), s)
        base = z3.SubString(nxt, 0, z3.Length(nxt) - len(SUFFIX))
        suff = z3.And(z3.SuffixOf(V(SUFFIX), s), z3.Length(s) > len(SUFFIX), src.exists(base))
        vc.assume(z3.And(src.count(nxt) >= 0, src.exists(nxt) == (src.count(nxt) > 0), src.count(base) >= 0, src.exists(base) == (src.count(base) > 0)))
        vc.assume(z3.If(dead(k), dead(k + 1),
                        z3.If(special(k), z3.If(canon(s), z3.And(P(k + 1) == P(k), z3.Not(special(k + 1)), ver(k + 1) == num(s), z3.Not(dead(k + 1))), dead(k + 1)),
                              z3.If(src.exists(nxt), z3.And(P(k + 1) == nxt, z3.Not(special(k + 1)), ver(k + 1) == 0, z3.Not(dead(k + 1))),
                                    z3.If(suff, z3.And(P(k + 1) == base, special(k + 1), ver(k + 1) == 0, z3.Not(dead(k + 1))), dead(k + 1))))))

    def parts(vc, s):
        return vc.new(SList(n.z, lambda i: SStr(part(i)), True, 'parts'))

    def number(vc, s, *a):
        if not isinstance(s, SStr):
            return int(s, *a)
        if vc.choose('not a number'):
            vc.assume(z3.Not(canon(s.z)))
            raise PyRaise(ValueError, ('invalid literal',))
        v = vc.int('parsed')
        vc.assume(z3.And(canon(s.z) == (text(v.z) == s.z), z3.Implies(canon(s.z), v.z == num(s.z))))
        return v

    cursor = {}

    def inv(vc, L):
        k = zi(L.k)
        step(k)
        cursor['k'] = k
        f = L.fileVersion
        return [('the components so far are decoded', z3.And(zs(L.filePath) == P(k), zb(L.pathIsSpecialVersionsFolder) == special(k), z3.Not(dead(k)),
                                                             (k == 0) if f is None else z3.And(k > 0, zi(f) == ver(k))))]

    def version(vc, L):
        return None if vc.choose('nothing is decoded yet') else vc.int('fileVersion')

    self = vc.new(Obj(FileVersionLayer, {'mountSource': src}, 'self'))
    interp = Interp(vc, loops={(Q + '_decode_versions_path_api', 0): LoopSpec(inv, havoc={'fileVersion': version, 'tmpFilePath': lambda vc, L: vc.str('tmp')})},
                    models={('split', '/'): parts, int: number, str: lambda vc, x: SStr(text(zi(x)))})
    kind, r = attempt(lambda: interp.run_function(FileVersionLayer._decode_versions_path_api, [self, path]))
    if kind == 'exc':
        vc.prove(False, 'decoding a path does not fail')
        return
    k = cursor['k']
    if r is None:
        vc.prove(z3.And(k < n.z, dead(k + 1)), 'only what exists is decoded')
        return
    vc.prove(z3.And(k == n.z, zs(r[0]) == P(n.z), zb(r[1]) == special(n.z), z3.Not(dead(n.z))), 'every component is decoded')
    vc.prove(zi(r[2]) == z3.If(special(n.z), 0, ver(n.z)), 'the version is the one named last')


def unit_lookup(vc):
    src = Src(vc)
    path = vc.watch('path', vc.str('path'))
    plain = vc.new(Obj(FileInfo, {'userdata': vc.new(SList(items=['source']))}, 'existing entry'))
    exists = vc.choose('the path exists')
    special, decoded = vc.choose('versions folder'), vc.choose('decodable')
    p, v = vc.str('decoded'), vc.int('version')
    vc.assume(z3.Or(v.z == 0, z3.BoolVal(not special)))

    def resolve(i, vc, ms, q):
        vc.prove(ms is src and zs(q).eq(path.z), 'the path asked for is looked up first')
        return plain if exists else None

    def dec(i, vc, s, q):
        vc.prove(z3.BoolVal(not exists), 'existing paths are not decoded')
        vc.prove(zs(q) == path.z, 'the path asked for is decoded')
        if not decoded:
            return None
        vc.assume(z3.And(src.exists(p.z), src.count(p.z) > 0))
        return (p, special, v)

    class Made(Model):
        pytype = FileInfo

        def __init__(self, **k):
            self.k = k

    self = vc.new(Obj(FileVersionLayer, {'mountSource': src}, 'self'))
    interp = Interp(vc, contracts={Q + '_resolve_hard_links': resolve, Q + '_decode_versions_path_api': dec},
                    models={FileInfo: lambda vc, *a, **k: Made(**k) if not a else Made(**dict(zip(FileInfo.__dataclass_fields__, a)))})
    kind, r = attempt(lambda: interp.run_function(FileVersionLayer.lookup, [self, path]))
    if kind == 'exc':
        vc.prove(False, 'a lookup does not fail')
        return
    if exists:
        vc.prove(r is plain and plain.fields['userdata'].items == ['source', FileType.FILE], 'an existing path is what it is without the layer')
    elif not decoded:
        vc.prove(r is None, 'nothing else exists')
    elif special:
        vc.prove(isinstance(r, Made), 'the folder of versions is a folder')
        vc.prove(zi(r.k['mode']) == 0o777 | stat.S_IFDIR, 'the folder of versions is a folder')
        ud = r.k['userdata']
        vc.prove((ud.items if isinstance(ud, SList) else ud) == [FileType.VERSIONS_FOLDER] and zi(r.k['size']).eq(z3.IntVal(0)), 'the folder of versions is marked as such')
    elif r is None:
        vc.prove(z3.Or(v.z > src.count(p.z), v.z <= -src.count(p.z)), 'an existing version is found')
    else:
        vc.prove(isinstance(r, Obj) and hasattr(r, 'origin'), 'versions come from the source')
        vc.prove(z3.And(r.origin[0] == p.z, r.origin[1] == v.z), 'the version is the stored one')
        vc.prove(r.fields['userdata'].items == ['source', FileType.FILE], 'the entry is marked as a file')


def unit_list(mode):
    def run(vc):
        src = Src(vc)
        path = vc.str('path')
        p = vc.str('decoded')
        special, decoded = vc.choose('versions folder'), vc.choose('decodable')
        answers = {}

        def listing(vc, q):
            for r, res in answers.items():
                if r is q:
                    return res
            which = vc.pick(3, 'listing')
            infos = [vc.new(Obj(FileInfo, {'userdata': vc.new(SList(items=[f'source {k}']))}, 'entry')) for k in range(2)]
            res = None if which == 0 else vc.new(SList(items=['x', 'y'])) if which == 1 else vc.new(SDict(items=[['x', 1 if mode else infos[0]], ['y', 2 if mode else infos[1]]]))
            answers[q] = res
            return res

        src.m_list = lambda vc, q: (vc.prove(not mode, 'entries are listed as entries'), listing(vc, q))[1]
        src.m_list_mode = lambda vc, q: (vc.prove(mode, 'modes are listed as modes'), listing(vc, q))[1]

        def dec(i, vc, s, q):
            vc.prove(q is path, 'the path asked for is decoded')
            return (p, special, vc.int('v')) if decoded else None

        self = vc.new(Obj(FileVersionLayer, {'mountSource': src}, 'self'))
        interp = Interp(vc, contracts={Q + '_decode_versions_path_api': dec})
        f = FileVersionLayer.list_mode if mode else FileVersionLayer.list
        kind, r = attempt(lambda: interp.run_function(f, [self, path]))
        if kind == 'exc':
            vc.prove(False, 'listing does not fail')
            return
        first = answers.get(path)
        if first is not None:
            vc.prove(r is first, 'an existing folder is listed as without the layer')
        elif not decoded:
            vc.prove(r is None, 'what does not exist is not listed')
        elif special:
            vc.assume(src.count(p.z) >= 0)
            k = vc.skolem('k')
            if not isinstance(r, SList):
                raise Unsupported('the kind of listing')
            vc.prove(r.length == src.count(p.z), 'as many versions are listed as exist')
            e = r.elem(k)
            vc.prove(z3.Implies(z3.And(k >= 0, k < r.length), zs(e) == z3.IntToStr(k + 1)), 'versions are listed from 1')
            return
        else:
            vc.prove(r is answers.get(p), 'folders reached through versions are listed')
        if isinstance(r, SDict) and not mode:
            vc.prove(all(x.fields['userdata'].items == [f'source {k}', FileType.FILE] for k, (_n, x) in enumerate(r.items)), 'listed entries can be used')
    return run


def unit_links(vc):
    """hard links are followed one by one, at most 128 of them"""
    path = vc.watch('path', vc.str('path'))
    # what a target names, seen from the root; the path below a mount point
    strip, join = vc.func('stripped', S, S), vc.func('joined', S, S, S)
    ishard, now = {}, {'info': None, 'path': None, 'version': None, 'point': None}

    class Here(Src):
        def m_get_mount_source(self, vc, info):
            vc.prove(info is now['info'], 'the mount point is that of the link')
            now['point'] = vc.str('mountPoint')
            return (now['point'], src, info)

        def m_lookup(self, vc, p, fileVersion=0):
            if now['info'] is None:
                vc.prove(z3.And(zs(p) == path.z, zi(fileVersion) == 0), 'the path asked for is looked up')
            else:
                if now['point'] is None:
                    raise Unsupported('a link is followed without its mount point')
                vc.prove(zs(p) == join(now['point'].z, strip(zs(now['info'].fields['linkname']))), 'a link leads to its target, seen from its own source')
                vc.prove(z3.If(zs(p) == now['path'], zi(fileVersion) == now['version'] + 1, zi(fileVersion) == 0), 'links to themselves lead to other versions, others to the newest')
            r = super().m_lookup(vc, p, fileVersion)
            now['result'] = r
            return r

    src = Here(vc)

    def is_hard(i, vc, info):
        if id(info) not in ishard:
            ishard[id(info)] = (vc.choose('it is a hard link'), info)
        return ishard[id(info)][0]

    def info_havoc(vc, L):
        r = vc.new(Obj(FileInfo, {'userdata': vc.new(SList(items=['source'])), 'mode': vc.int('mode'), 'linkname': vc.str('linkname')}, 'entry'))
        ishard[id(r)] = (vc.choose('it is a hard link'), r)
        now['info'], now['point'] = r, None
        return r

    def inv(vc, L):
        c = zi(L.hardLinkCount)
        f, r = L.fileInfo, L.resolvedPath
        if f is None or id(f) not in ishard:
            raise Unsupported('the entry of the loop')
        target = strip(zs(f.fields['linkname']))
        vc.assume(strip(z3.Concat(V('/'), target)) == target)
        if f is now['info']:
            now['path'], now['version'] = zs(L.path), zi(L.fileVersion)
        return [('at most 128 links are followed', z3.And(c >= 0, c <= 128, zi(L.fileVersion) >= 0)),
                ('a link is followed exactly if the entry is one', z3.BoolVal((r is not None) == ishard[id(f)][0])),
                ('the target is the one named', z3.BoolVal(True) if r is None else zs(r) == z3.Concat(V('/'), strip(zs(f.fields['linkname']))))]

    def stripped(vc, s):
        z = strip(zs(s))
        vc.assume(strip(z3.Concat(V('/'), z)) == z)
        return SStr(z)

    def joined(vc, a, b):
        return SStr(join(zs(a), zs(b)))

    spec = LoopSpec(inv, decreases=lambda vc, L: SInt(128 - zi(L.hardLinkCount)), havoc={
        'fileInfo': info_havoc, 'resolvedPath': lambda vc, L: vc.str('resolvedPath') if ishard[id(now['info'])][0] else None})
    interp = Interp(vc, contracts={Q + '_is_hard_link': is_hard}, loops={(Q + '_resolve_hard_links', 0): spec},
                    models={('lstrip', '/'): stripped, os.path.join: joined})
    kind, r = attempt(lambda: interp.run_function(FileVersionLayer._resolve_hard_links, [src, path]))
    if kind == 'exc':
        vc.prove(False, 'following links does not fail')
    elif r is None:
        vc.prove(now['result'] is None, 'only links to nothing lead to nothing')
    else:
        vc.prove(r is now['info'], 'the last entry reached is returned')


def unit_is_hard(vc):
    mode, link = vc.nat('mode'), vc.str('linkname')
    info = vc.new(Obj(FileInfo, {'mode': mode, 'linkname': link}, 'info'))
    r = Interp(vc).run_function(FileVersionLayer._is_hard_link, [info])
    vc.prove(z3.Implies(z3.Length(link.z) == 0, z3.Not(zb(r))), 'entries without a target are no links')


ORACLES = [
    Oracle('random trees with special names', run_random, [FileVersionLayer.lookup, FileVersionLayer._list_wrapper, FileVersionLayer._decode_versions_path_api],
           '400 (6000) random trees of names with and without the suffix, hard links included; all derived paths'),
    Oracle('all small link graphs', run_links, [FileVersionLayer._resolve_hard_links], 'all hard links between 2 (3) names of two versions each'),
    Oracle('archives with versions and links', run_tar, [FileVersionLayer.open], '40 (400) random TAR archives'),
]
UNITS = [
    Unit('special folders are decoded', unit_decode, [FileVersionLayer._decode_versions_path_api]),
    Unit('lookups', unit_lookup, [FileVersionLayer.lookup]),
    Unit('listings', unit_list(False), [FileVersionLayer.list, FileVersionLayer._list_wrapper]),
    Unit('mode listings', unit_list(True), [FileVersionLayer.list_mode, FileVersionLayer._list_wrapper]),
    Unit('hard links', unit_links, [FileVersionLayer._resolve_hard_links]),
    Unit('what a hard link is', unit_is_hard, [FileVersionLayer._is_hard_link]),
]
LEVEL = 'proof'
TRUSTED = ["s.lstrip('/') and os.path.join(mount point, s) as uninterpreted functions (composition of paths is checked by the runs)"]
