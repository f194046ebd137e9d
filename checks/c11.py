"""Contracts for the union mount over any number of sources, and runs on random and exhaustive compositions."""
import itertools
import os
import stat

import z3

from checks.common import quiet
from checks.compose import TreeSource, all_paths, attributes, innermost, random_tree
from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp, LoopSpec
from pyvc.values import Host, Model, Obj, PyRaise, SBool, SDict, SInt, SList, SStr, Unsupported, Val, zb, zi
from ratarmountcore.mountsource import FileInfo, MountSource
from ratarmountcore.mountsource.compositing.union import UnionMountSource

Q = 'ratarmountcore.mountsource.compositing.union:UnionMountSource.'


# ------------------------------------------------------------------------------------------------ proofs
I, B = z3.IntSort(), z3.BoolSort()


class Sources:
    """any number of mount sources and what they say about one path and about one of the folders above it"""

    def __init__(self, vc):
        self.vc = vc
        self.n = vc.nat('sources')
        self.cnt = vc.func('versions', I, I)  # versions of the path in source k
        self.imm, self.dir = vc.func('immutable', I, B), vc.func('has_folder', I, B)
        self.C = vc.func('versions_before', I, I)  # ghost: versions in the sources before k
        self.last = vc.func('last_having', I, I)  # ghost: last source before k which has the path
        self.absent = False  # no immutable source has the folder above
        self.path = Path(self)
        self.list = vc.new(SList(self.n.z, lambda i: Source(self, i), True, 'mountSources'))
        vc.watch('sources', self.n)

    def at(self, k):
        """what holds for source k, and the definition of C"""
        facts = [self.cnt(k) >= 0, self.C(0) == 0, z3.Implies(k >= 0, self.C(k + 1) == self.C(k) + self.cnt(k)), z3.Implies(self.cnt(k) > 0, self.dir(k))]
        if self.absent:
            facts.append(z3.Not(z3.And(self.imm(k), self.dir(k))))
        self.vc.assume(z3.And(*facts))

    def gap(self, a, b, lst):
        """instance of the lemma proved by unit_gap"""
        k = self.vc.skolem('k_gap')
        self.vc.assume(z3.Implies(z3.And(a >= 0, a <= b), z3.Or(self.C(a) == self.C(b), z3.And(k >= a, k < b, self.cnt(k) > 0))))
        self.at(k)
        inv = getattr(lst, 'sel_inv', None)
        if inv is not None:
            self.vc.assume(inv(k) == inv(k))


def unit_gap(vc):
    """C counts the versions of the sources before k.  If C(a) != C(b) for a <= b, then a source between them has a version."""
    cnt, C, last = vc.func('cnt', I, I), vc.func('C', I, I), vc.func('last', I, I)
    k = z3.Int('k_d')
    a, n = vc.nat('a').z, vc.nat('n').z
    vc.assume(z3.ForAll([k], z3.And(cnt(k) >= 0, C(k + 1) == C(k) + cnt(k), last(k + 1) == z3.If(cnt(k) > 0, k, last(k))), patterns=[cnt(k)]))
    vc.assume(last(a) == -1)

    def P(j):
        b = a + j
        return z3.And(cnt(b) >= 0, z3.Or(z3.And(last(b) == -1, C(a) == C(b)), z3.And(last(b) >= a, last(b) < b, cnt(last(b)) > 0)))

    vc.induction('versions are counted only where they are', n, P, lambda j: [C(a + j)])
    vc.prove(z3.Or(C(a) == C(a + n), z3.And(last(a + n) >= a, last(a + n) < a + n, cnt(last(a + n)) > 0)), 'versions are counted only where they are')


class Path(Model):
    pytype = str

    def __init__(self, w):
        self.w = w
        self.depth = w.vc.nat('depth')  # components of the path
        self.absolute = w.vc.bool('absolute')

    def m_strip(self, vc, chars=None):
        if chars != '/':
            raise Unsupported('strip of a path')
        return Stripped(self)

    def m_startswith(self, vc, s):
        if s != '/':
            raise Unsupported('startswith of a path')
        return self.absolute

    def m_split(self, vc, sep, maxsplit=-1):
        if sep != '/':
            raise Unsupported('split of a path')
        return Parts(self, zi(maxsplit))

    def m_rsplit(self, vc, sep, maxsplit=-1):
        if sep != '/' or maxsplit != 1:
            raise Unsupported('rsplit of a path')
        return Parts(self, None)

    def encode_key(self):
        raise Unsupported('a path as a key')


class Stripped(Model):
    pytype = str

    def __init__(self, path):
        self.path = path

    def truth(self, vc):
        return self.path.depth.z > 0


class Parts(Model):
    """an absolute path split at most `limit` times: one empty part, then the components, the last one with what is left"""

    def __init__(self, path, limit, cut=0):
        self.path, self.limit, self.cut = path, limit, cut

    def getslice(self, vc, lo, hi, step=None):
        if lo in (None, 0) and step is None and hi == -1 and not self.cut:
            return Parts(self.path, self.limit, 1)
        raise Unsupported('parts of a path')


def ancestor(vc, parts):
    """contract of '/'.join(path.split('/', limit)[:-1]): the folder above the path which is min(depth, limit) - 1 components long"""
    if not isinstance(parts, Parts) or not parts.cut:
        raise Unsupported('join')
    d = parts.path.depth.z
    return Folder(parts.path.w, d - 1 if parts.limit is None else z3.If(d <= parts.limit, d, parts.limit) - 1)


class Folder(Model):
    pytype = str

    def __init__(self, w, depth):
        self.w, self.depth = w, depth

    def truth(self, vc):
        return self.depth > 0  # the root is the empty string here


class Cache(Model):
    """folderCache: exact for every folder of at most `cachedDepth` components"""
    pytype = dict

    def __init__(self, w, depth):
        self.w, self.depth = w, depth

    def truth(self, vc):
        return True

    def contains(self, vc, key):
        if not isinstance(key, Path):
            raise Unsupported('membership in the folder cache')
        return vc.choose('the path itself is a cached folder')

    def sources(self, vc, key):
        w = self.w
        if isinstance(key, str):
            vc.prove(key == '/', 'only folders above the path are looked up in the cache')
            depth = z3.IntVal(0)
        elif isinstance(key, Folder):
            depth = key.depth
        elif isinstance(key, Path):
            raise Unsupported('the path itself in the cache')
        else:
            raise Unsupported('key of the folder cache')
        vc.prove(z3.And(depth >= 0, depth < w.path.depth.z, depth <= self.depth.z), 'the folder above the path is one of the cached depth')
        return Cached(w)

    def m_get(self, vc, key, default=None):
        w = self.w
        r = self.sources(vc, key)
        if vc.choose('the folder is in the cache'):
            return r
        if not (isinstance(default, SList) and default.items == []):
            raise Unsupported('default of a cache lookup')
        w.absent = True
        return default

    def getitem(self, vc, key):
        return self.sources(vc, key)


class Cached(Model):
    pytype = list

    def __init__(self, w):
        self.w = w

    def contains(self, vc, x):
        if not isinstance(x, Source):
            raise Unsupported('membership')
        return SBool(z3.And(self.w.imm(x.k), self.w.dir(x.k)))


class Source(Model):
    pytype = MountSource

    def __init__(self, w, k):
        self.w, self.k = w, k

    def map_terms(self, f):
        return Source(self.w, f(self.k))

    def eq(self, vc, other):
        return self.k == other.k if isinstance(other, Source) else False

    def m_is_immutable(self, vc):
        return SBool(self.w.imm(self.k))

    def m_versions(self, vc, path):
        vc.prove(path is self.w.path, 'the sources are asked for the path')
        return SInt(self.w.cnt(self.k))

    def m_exists(self, vc, path):
        vc.prove(path is self.w.path, 'the sources are asked for the path')
        return SBool(self.w.cnt(self.k) > 0)

    def m_lookup(self, vc, path, fileVersion=0):
        vc.prove(path is self.w.path, 'the sources are asked for the path')
        v, n = zi(fileVersion), self.w.cnt(self.k)
        if not vc.branch(z3.And(v <= n, v > -n)):
            return None
        r = vc.new(Obj(FileInfo, {'userdata': vc.new(SList(items=['of the source']))}, 'entry'))
        r.found = (self.k, z3.If(v > 0, v - 1, n - 1 + v))
        return r


def position(L, i, n):
    return z3.If(z3.And(i >= 0, i < L.length), L.elem(i).k, n)


def unit_lookup(vc):
    w = Sources(vc)
    depth = vc.nat('cachedDepth')
    v0 = vc.watch('version', vc.int('fileVersion'))
    root = vc.new(Obj(FileInfo, {'userdata': vc.new(SList(items=[None]))}, 'root'))
    cloned = vc.new(Obj(FileInfo, {'userdata': vc.new(SList(items=[None]))}, 'clone of the root'))
    self = vc.new(Obj(UnionMountSource, {'mountSources': w.list, 'folderCache': Cache(w, depth), 'folderCacheDepth': depth, 'rootFileInfo': root}, 'self'))
    n, T = w.n.z, w.C(w.n.z)

    w.at(z3.IntVal(0))
    w.at(n)

    def facts(seq, low, high, k):
        lst = seq if hasattr(seq, 'sel') else getattr(seq, 'of', None)
        here = position(seq, k, n)
        w.at(here)
        w.gap(low, high, lst)

    def inv_newest(vc, L):
        seq, k = L.seq, zi(L.k)
        low = z3.If(k == 0, n, position(seq, k - 1, n))
        here = z3.If(k < seq.length, position(seq, k, n) + 1, 0)
        w.at(low)
        facts(seq, here, low, k)
        return [('the versions passed so far are those of the later sources', z3.And(
            zi(L.fileVersion) == v0.z + T - w.C(low), w.C(here) == w.C(low), zi(L.fileVersion) <= 0, low >= 0, low <= n, here <= low, v0.z <= 0))]

    def inv_oldest(vc, L):
        seq, k = L.seq, zi(L.k)
        high = position(seq, k, n)
        before = z3.If(k == 0, 0, position(seq, k - 1, n) + 1)
        w.at(before)
        facts(seq, before, high, k)
        return [('the versions passed so far are those of the earlier sources', z3.And(
            zi(L.fileVersion) == v0.z - w.C(high), w.C(before) == w.C(high), zi(L.fileVersion) >= 1, high >= 0, high <= n, before <= high, v0.z > 0))]

    def inv(vc, L):  # There may be one loop for both directions.
        return inv_newest(vc, L) if newest else inv_oldest(vc, L)

    newest = vc.branch(v0.z <= 0)
    interp = Interp(vc, contracts={'ratarmountcore.mountsource.MountSource:FileInfo.clone': lambda i, vc, s: cloned},
                    loops={(Q + 'lookup', i): LoopSpec(inv) for i in (0, 1)}, models={('join', '/'): ancestor})
    kind, r = attempt(lambda: interp.run_function(UnionMountSource.lookup, [self, w.path, v0]))
    if kind == 'exc':
        vc.prove(False, 'a lookup does not fail')
        return
    if r is cloned or r is root:
        vc.prove(w.path.depth.z == 0, 'only the root is the root')
        vc.prove(r is cloned, 'the root entry is copied')
        return
    vc.prove(w.path.depth.z > 0, 'the root always exists')
    if r is None:
        vc.prove(z3.Or(v0.z > T, v0.z <= -T), 'a version that exists in any source is found')
        return
    vc.prove(isinstance(r, Obj) and hasattr(r, 'found'), 'entries come from the sources')
    k, idx = r.found
    vc.prove(w.C(k) + idx == z3.If(v0.z > 0, v0.z - 1, T - 1 + v0.z), 'the version is counted over all sources, those added later are newer')
    vc.prove(z3.And(k >= 0, k < n, idx >= 0, idx < w.cnt(k)), 'the version exists')
    ud = r.fields['userdata'].items
    vc.prove(len(ud) == 2 and ud[0] == 'of the source' and isinstance(ud[1], Source), 'the entry remembers its source')
    vc.prove(ud[1].k == k, 'the entry remembers its source')


def unit_versions(vc):
    w = Sources(vc)

    def total(vc, seq, start):
        k = vc.skolem('k')
        vc.prove(zi(start) == 0, 'versions are counted from 0')
        vc.prove(seq.length == w.n.z, 'all sources are counted')
        vc.prove(z3.Implies(z3.And(k >= 0, k < w.n.z), zi(seq.elem(k)) == w.cnt(k)), 'all versions are counted')
        return SInt(w.C(w.n.z))

    self = vc.new(Obj(UnionMountSource, {'mountSources': w.list}, 'self'))
    interp = Interp(vc, models={'sum': total})
    r = interp.run_function(UnionMountSource.versions, [self, w.path])
    vc.prove(zi(r) == w.C(w.n.z), 'the number of versions is that over all sources')


class Listing(Model):
    """what sources return: a dictionary, or only names; has and src (which source the value is from) are closures over names"""

    def __init__(self, isdict, has, src, owned):
        self.pytype = dict if isdict else (list if owned else set)
        self.has, self.src, self.owned = has, src, owned

    def same(self, vc):
        vc.prove(not self.owned, 'what a source returned is not changed')

    def m_keys(self, vc):
        return self

    def m_copy(self, vc):
        return Listing(self.pytype is dict, self.has, self.src, False)

    def merged(self, other):
        return (lambda x, a=self.has, b=other.has: z3.Or(a(x), b(x))), (lambda x, a=self.src, b=other.has, c=other.src: z3.If(b(x), c(x), a(x)))

    def m_update(self, vc, other):
        if not isinstance(other, Listing):
            raise Unsupported('update')
        self.same(vc)
        vc.prove(self.pytype is set or other.pytype is dict, 'only dictionaries are merged into a dictionary')
        self.has, self.src = self.merged(other)
        vc.log_write(self)

    def m_union(self, vc, other):
        if not isinstance(other, Listing) or self.pytype is not set:
            raise Unsupported('union')
        return Listing(False, *self.merged(other), False)

    def truth(self, vc):
        raise Unsupported('truth of a listing')


def unit_list(onlyMode):
    def run(vc):
        n = vc.nat('sources')
        kind = vc.func('kind', I, I)  # 0: no such folder, 1: dictionary, 2: only names
        has = vc.func('has', I, Val, B)
        F, D = vc.func('first', I, I), vc.func('dicts', I, I)
        W = vc.func('newest', I, Val, I)  # ghost: last of the first k sources which has the name, or -1
        k, x = z3.Int('k_l'), z3.Const('x_l', Val)
        vc.assume(z3.And(F(0) == 0, D(0) == 0))
        vc.assume(z3.ForAll([k], z3.And(kind(k) >= 0, kind(k) <= 2), patterns=[kind(k)]))
        vc.assume(z3.ForAll([k], z3.Implies(k >= 0, z3.And(F(k + 1) == F(k) + z3.If(kind(k) != 0, 1, 0), D(k + 1) == D(k) + z3.If(kind(k) == 1, 1, 0))), patterns=[kind(k)]))
        vc.assume(z3.ForAll([x], W(0, x) == -1, patterns=[W(0, x)]))
        vc.assume(z3.ForAll([k, x], z3.Implies(k >= 0, W(k + 1, x) == z3.If(z3.And(kind(k) != 0, has(k, x)), k, W(k, x))), patterns=[W(k + 1, x)]))

        class S(Model):
            pytype = MountSource

            def __init__(self, k):
                self.k = k

            def map_terms(self, f):
                return S(f(self.k))

            def result(self, vc, path):
                vc.prove(path is p, 'the folder asked for is listed')
                if vc.branch(kind(self.k) == 0):
                    return None
                return Listing(vc.branch(kind(self.k) == 1), lambda x: has(self.k, x), lambda x: self.k, True)

            def m_list(self, vc, path):
                vc.prove(not onlyMode, 'entries are listed as entries')
                return self.result(vc, path)

            def m_list_mode(self, vc, path):
                vc.prove(onlyMode, 'modes are listed as modes')
                return self.result(vc, path)

        p = vc.str('path')
        self = vc.new(Obj(UnionMountSource, {'mountSources': vc.new(SList(n.z, S, True, 'mountSources'))}, 'self'))
        x0 = z3.Const('x0', Val)  # any name

        def described(files, k):
            """files is the listing over the sources before k"""
            k = zi(k)
            out = [F(k) >= D(k), D(k) >= 0, kind(k) == kind(k)]
            if files is None:
                out += [F(k) == 0, W(k, x0) == -1]
            else:
                out += [F(k) > 0, z3.BoolVal(files.pytype is dict) == (F(k) == D(k)), files.has(x0) == (W(k, x0) >= 0), W(k, x0) < k, W(k, x0) >= -1]
                if files.pytype is dict:
                    out.append(z3.Implies(files.has(x0), files.src(x0) == W(k, x0)))
            return z3.And(*out)

        def inv(vc, L):
            f = L.files
            if f is not None and not isinstance(f, Listing):
                raise Unsupported('the kind of listing')
            r = described(f, L.k)
            if f is not None:
                r = z3.And(r, z3.BoolVal(not f.owned))
            return [('names are those of all sources so far, entries of the last one', r)]

        def havoc(vc, L):
            which = vc.pick(3, 'what is listed so far')
            if which == 0:
                return None
            h, s = vc.func('h', Val, B), vc.func('s', Val, I)
            return Listing(which == 1, lambda x: h(x), lambda x: s(x), False)

        def mk(isdict):
            def f(vc, x=None):
                if x is None:
                    return Listing(isdict, lambda y: z3.BoolVal(False), lambda y: z3.IntVal(-1), False)
                if not isinstance(x, Listing) or (isdict and x.pytype is not dict):
                    raise Unsupported('conversion of a listing')
                return Listing(isdict, x.has, x.src, False)
            return f

        interp = Interp(vc, loops={(Q + '_list', 0): LoopSpec(inv, havoc={'files': havoc})}, models={set: mk(False), dict: mk(True)})
        f = UnionMountSource.list_mode if onlyMode else UnionMountSource.list
        kd, r = attempt(lambda: interp.run_function(f, [self, p]))
        if kd == 'exc':
            vc.prove(False, 'listing does not fail')
            return
        m = n.z
        if r is None:
            vc.prove(F(m) == 0, 'a folder which any source has is listed')
            return
        if not isinstance(r, Listing):
            raise Unsupported('the kind of listing')
        vc.prove(F(m) > 0, 'what no source has lists nothing')
        vc.prove(r.has(x0) == (W(m, x0) >= 0), 'the names are those of all sources')
        if r.pytype is dict:
            vc.prove(z3.Implies(r.has(x0), r.src(x0) == W(m, x0)), 'entries are those of the source added last')
        else:
            vc.prove(D(m) < F(m), 'entries are listed if all sources list them')
    return run


# ------------------------------------------------------------------------------------------------ reference and runs
def reference_lookup(sources, path, version):
    """(source, version index) or None; versions counted from the oldest of the first source to the newest of the last"""
    every = [(s, k) for s in sources for k in range(s.versions(path))]
    k = version - 1 if version > 0 else len(every) - 1 + version
    return every[k] if 0 <= k < len(every) else None


def check_union(c, union, sources, paths):
    for p in paths:
        n = sum(s.versions(p) for s in sources)
        c.equal(union.versions(p), n, 'the versions of all sources are counted', path=p)
        for v in range(-n - 1, n + 2):
            got = union.lookup(p, v)
            want = reference_lookup(sources, p, v)
            c.check((got is None) == (want is None), 'a version is found exactly if it exists', path=p, version=v, expected=want is not None)
            if want is None:
                continue
            t = innermost(got)
            k = 0 if p in want[0].folders else want[1]
            c.check(t.source is want[0] and t.version == k, 'the version comes from the source added last', path=p, version=v, got=repr(t), expected=f'{want[0].label}#{k}')
            if not stat.S_ISDIR(got.mode) and v == 0:
                with union.open(got) as f:
                    c.equal(f.read(), want[0].content(t), 'the contents are those of the source looked up', path=p)
    for p in ['/', *paths]:
        having = [s for s in sources if p in s.folders]
        if any(p in s.files for s in sources):
            continue
        for method in ('list', 'list_mode'):
            got = getattr(union, method)(p)
            if not having:
                c.check(not got, 'what does not exist lists nothing', path=p, method=method)
                continue
            c.check(got is not None, 'an existing folder is listed', path=p, method=method)
            c.equal(sorted(got), sorted({n for s in having for n in s.children(p)}), 'a folder lists the names of all sources', path=p, method=method)
            if isinstance(got, dict):
                for n, i in got.items():
                    win = reference_lookup(sources, p.rstrip('/') + '/' + n, 0)
                    w = win[0].lookup(p.rstrip('/') + '/' + n)
                    if method == 'list':
                        c.equal(attributes(i), attributes(w), 'the metadata listed is that of the source added last', path=p, name=n)
                    else:
                        c.equal(i, w.mode, 'the mode listed is that of the source added last', path=p, name=n)


def run_random(ctx):
    quiet()
    paths = list(all_paths('abc', 3)) + ['/a/b/c/a', '/b/b/b/b/b']
    for _ in range(ctx.budget(500, 8000)):
        if ctx.out_of_time():
            return
        sources = [random_tree(ctx.rng, f's{k}', depth=ctx.rng.choice([2, 3, 4])) for k in range(ctx.rng.randrange(1, 5))]
        kw = ctx.rng.choice([{}, {}, {'maxCacheDepth': ctx.rng.randrange(0, 4)}, {'maxCacheEntries': ctx.rng.randrange(0, 12)}, {'maxSecondsToCache': 0},
                             {'maxSecondsToCache': -1}])
        with ctx.case({'sources': [s.describe() for s in sources], 'cache': kw}) as c:
            union = UnionMountSource(sources, **kw)
            check_union(c, union, sources, paths)
            # a listing must not be changed by later ones, and sources that can change are asked again
            check_union(c, union, sources, paths[:6])
            for s in sources:
                if not s.immutable:
                    s.files.pop(next(iter(s.files), None), None)
                    p = ctx.rng.choice(paths)
                    if not any(p.startswith(q + '/') for q in s.files) and p not in s.folders and p not in s.files:
                        s.add(p, [b'new'])
            check_union(c, union, sources, paths)


def run_small(ctx):
    """all pairs of sources, each with any of a small set of trees"""
    quiet()
    trees = [{}, {'/a': [b'1']}, {'/a': [b'1', b'22']}, {'/a/b': [b'333']}, {'/a/b': [b'4', b'5', b'']}, {'/b': [b'6']}, {'/a/b/c': [b'7']}]
    n = 3 if ctx.thorough else 2
    for combo in itertools.product(range(len(trees)), repeat=n):
        for imm in itertools.product([True, False], repeat=n):
            if ctx.out_of_time():
                return
            sources = [TreeSource(trees[t], immutable=i, label=f's{k}') for k, (t, i) in enumerate(zip(combo, imm))]
            with ctx.case({'sources': [s.describe() for s in sources]}) as c:
                check_union(c, UnionMountSource(sources), sources, ['/a', '/b', '/a/b', '/a/c', '/a/b/c', '/a/b/c/d'])


def run_real(ctx):
    """folders and archives"""
    import io
    from checks import tarlib
    from ratarmountcore.mountsource.formats.folder import FolderMountSource
    from ratarmountcore.mountsource.formats.tar import SQLiteIndexedTar
    quiet()
    for _ in range(ctx.budget(30, 300)):
        if ctx.out_of_time():
            return
        trees = [random_tree(ctx.rng, f's{k}', n=ctx.rng.randrange(1, 8)) for k in range(ctx.rng.randrange(1, 4))]
        real = []
        for t in trees:
            if ctx.rng.random() < .5:
                d = ctx.tmp()
                for f in t.folders:
                    os.makedirs(d + f, exist_ok=True)
                for p in list(t.files):
                    t.files[p] = t.files[p][-1:]
                    v = t.files[p][0][0]
                    if isinstance(v, tuple):
                        t.files[p][0] = (('link', v[1] + '_'), t.files[p][0][1])  # never an existing folder
                        os.symlink(v[1] + '_', d + p)
                    else:
                        with open(d + p, 'wb') as f:
                            f.write(v)
                real.append(FolderMountSource(d))
            else:
                members = [tarlib.Member(f.strip('/').encode(), type_=b'5', mode=0o755) for f in sorted(t.folders) if f != '/']
                for p, vs in t.files.items():
                    for v, _time in vs:
                        members.append(tarlib.Member(p.strip('/').encode(), type_=b'2', linkname=v[1].encode()) if isinstance(v, tuple) else tarlib.Member(p.strip('/').encode(), v))
                real.append(SQLiteIndexedTar(fileObject=io.BytesIO(tarlib.build(members)), writeIndex=False))
        with ctx.case({'sources': [(t.describe(), type(r).__name__) for t, r in zip(trees, real)]}) as c:
            union = UnionMountSource(real)
            for p in all_paths('abc', 3):
                n = sum(t.versions(p) for t in trees)
                c.equal(union.versions(p), n, 'the versions of all sources are counted', path=p)
                for v in range(-n, n + 2):
                    want, got = reference_lookup(trees, p, v), union.lookup(p, v)
                    c.check((got is None) == (want is None), 'a version is found exactly if it exists', path=p, version=v)
                    if want is None:
                        continue
                    info = want[0].lookup(p, want[1] + 1)
                    c.equal((stat.S_IFMT(got.mode), got.linkname), (stat.S_IFMT(info.mode), info.linkname), 'it is the entry of the source added last', path=p, version=v)
                    if stat.S_ISREG(got.mode):
                        with union.open(got) as f:
                            c.equal(f.read(), want[0].content(info.userdata[0]), 'the contents are those of the source added last', path=p, version=v)
                if n and not any(p in t.files for t in trees):
                    c.equal(sorted(union.list(p) or ()), sorted({x for t in trees for x in (t.children(p) or ())}), 'a folder lists the names of all sources', path=p)
        for r in real:
            r.__exit__(None, None, None)


ORACLES = [
    Oracle('random unions', run_random, [UnionMountSource.lookup, UnionMountSource.versions, UnionMountSource._list, UnionMountSource._build_folder_cache],
           '500 (8000) unions of 1-4 random sources with up to 8 entries of up to 4 levels and 3 versions, all cache limits; every path and version'),
    Oracle('all small unions', run_small, [UnionMountSource.lookup, UnionMountSource._list], 'all pairs (triples) of 7 trees, mutable or not'),
    Oracle('unions of folders and archives', run_real, [UnionMountSource.open], '30 (300) unions of random folders and TAR archives'),
]
UNITS = [
    Unit('a version is found in the right source', unit_lookup, [UnionMountSource.lookup], timeout_ms=20000),
    Unit('versions are counted only where they are', unit_gap, []),
    Unit('versions are counted over all sources', unit_versions, [UnionMountSource.versions]),
    Unit('listings merge all sources', unit_list(False), [UnionMountSource.list, UnionMountSource._list]),
    Unit('mode listings merge all sources', unit_list(True), [UnionMountSource.list_mode, UnionMountSource._list]),
]
TRUSTED = ['the folder cache is exact for the depths cached (checked by the runs, not proved)',
           "'/'.join(path.split('/', n)[:-1]) is the folder above an absolute path of at most n - 1 components"]
LEVEL = 'proof'
