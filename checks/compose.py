"""Mount sources with known contents, to compose and compare with independent references."""
import io
import itertools
import stat

from ratarmountcore.mountsource import FileInfo, MountSource

counter = itertools.count(1)


class Token:
    """what an entry carries: tells exactly which version of which path of which source it is"""

    def __init__(self, source, path, version):
        self.source, self.path, self.version = source, path, version

    def __repr__(self):
        return f'{self.source.label}:{self.path}#{self.version}'


def canonical(path):
    return '/' + '/'.join(p for p in path.split('/') if p)


class TreeSource(MountSource):
    """files: path -> list of contents (bytes), oldest first, or ('link', target), or ('hard', target) for hard links as in TAR archives"""

    def __init__(self, files, folders=(), immutable=True, names_only=False, label='s'):
        self.label, self.immutable, self.names_only = label, immutable, names_only
        self.folders = {'/': next(counter)}
        self.files = {}
        self.failing = False
        self.misuse = []
        self.opened = 0
        self.closed = 0
        for p, versions in files.items():
            self.add(p, versions)
        for p in folders:
            self.add_folder(p)

    def add_folder(self, p):
        parts = canonical(p).split('/')
        for k in range(1, len(parts) + 1):
            f = '/'.join(parts[:k]) or '/'
            if f not in self.folders:
                self.folders[f] = next(counter)

    def add(self, p, versions):
        self.files[p] = [(v, next(counter)) for v in versions]
        self.add_folder(p.rsplit('/', 1)[0])

    def describe(self):
        return {'label': self.label, 'files': {p: [v for v, _t in vs] for p, vs in self.files.items()}, 'folders': sorted(self.folders),
                'immutable': self.immutable, 'names only': self.names_only}

    def is_immutable(self):
        return self.immutable

    def _folder(self, p):
        return FileInfo(size=0, mtime=self.folders[p], mode=0o755 | stat.S_IFDIR, linkname='', uid=1, gid=2, userdata=[Token(self, p, 0)])

    def _info(self, p, k):
        v, t = self.files[p][k]
        if isinstance(v, tuple) and v[0] == 'hard':
            return FileInfo(size=0, mtime=t, mode=0o644, linkname=v[1], uid=3, gid=4, userdata=[Token(self, p, k)])
        if isinstance(v, tuple):
            return FileInfo(size=0, mtime=t, mode=0o777 | stat.S_IFLNK, linkname=v[1], uid=3, gid=4, userdata=[Token(self, p, k)])
        return FileInfo(size=len(v), mtime=t, mode=0o640 | stat.S_IFREG, linkname='', uid=3, gid=4, userdata=[Token(self, p, k)])

    def versions(self, path):
        p = canonical(path)
        return 1 if p in self.folders else len(self.files.get(p, ()))

    def lookup(self, path, fileVersion=0):
        p = canonical(path)
        n = self.versions(p)
        k = fileVersion - 1 if fileVersion > 0 else n - 1 + fileVersion
        if not 0 <= k < n:
            return None
        return self._folder(p) if p in self.folders else self._info(p, k)

    def children(self, path):
        p = canonical(path)
        if p not in self.folders:
            return None
        out = {}
        for q in list(self.folders) + list(self.files):
            if q != '/' and (q.rsplit('/', 1)[0] or '/') == p:
                out[q.rsplit('/', 1)[1]] = self.lookup(q)
        return out

    def list(self, path):
        c = self.children(path)
        return list(c) if c is not None and self.names_only else c

    def list_mode(self, path):
        c = self.children(path)
        if c is None:
            return None
        return list(c) if self.names_only else {n: i.mode for n, i in c.items()}

    def _check(self, info):
        ok = len(info.userdata) == 1 and isinstance(info.userdata[0], Token) and info.userdata[0].source is self
        if not ok:
            self.misuse.append(repr(info.userdata))
        if self.failing:
            raise OSError('this source fails')
        if not ok:
            raise AssertionError(f'{self.label} got an entry that is not its own: {info.userdata}')
        return info.userdata[0]

    def content(self, token):
        if token.path in self.folders:
            raise IsADirectoryError(token.path)
        v = self.files[token.path][token.version][0]
        return b'' if isinstance(v, tuple) else v

    def open(self, fileInfo, buffering=-1):
        data = self.content(self._check(fileInfo))
        self.opened += 1
        return io.BytesIO(data)

    def read(self, fileInfo, size, offset):
        return self.content(self._check(fileInfo))[offset:offset + size]

    def list_xattr(self, fileInfo):
        self._check(fileInfo)
        return ['user.token']

    def get_xattr(self, fileInfo, key):
        t = self._check(fileInfo)
        return repr(t).encode() if key == 'user.token' else None

    def statfs(self):
        return {}

    def __exit__(self, *a):
        self.closed += 1


def random_tree(rng, label, names='abc', depth=3, n=None, immutable=None, names_only=None, versions=3):
    """a random source; never a file where it also has a folder"""
    files, folders = {}, []
    for k in range(rng.randrange(0, 8) if n is None else n):
        p = ''.join('/' + rng.choice(names) for _ in range(rng.randrange(1, depth + 1)))
        if any(q.startswith(p + '/') for q in [*files, *folders]) or any(p.startswith(q + '/') for q in files) or p in files or p in folders:
            continue
        if rng.random() < .15:
            folders.append(p)
        elif rng.random() < .1:
            files[p] = [('link', rng.choice(names))]
        else:
            files[p] = [f'{label}{p}{j}'.encode() * rng.randrange(0, 3) for j in range(rng.randrange(1, versions + 1))]
    return TreeSource(files, folders, immutable=rng.random() < .7 if immutable is None else immutable,
                      names_only=rng.random() < .15 if names_only is None else names_only, label=label)


def all_paths(names='abc', depth=3):
    for d in range(1, depth + 1):
        for t in itertools.product(names, repeat=d):
            yield '/' + '/'.join(t)


def innermost(info):
    """the token of the source an entry comes from"""
    return next((u for u in info.userdata if isinstance(u, Token)), None)


def attributes(info):
    return (info.size, info.mtime, info.mode, info.linkname, info.uid, info.gid)


def state(info):
    """everything an entry consists of, to see whether it was changed"""
    return (attributes(info), [id(u) if not isinstance(u, (str, int, type(None))) else u for u in info.userdata])
