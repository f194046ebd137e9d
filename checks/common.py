"""Reference models and generators for the concrete runs."""
import io
import os


class Pattern(io.RawIOBase):
    """A huge read-only file whose byte at position p is computed; reads may be short."""

    def __init__(self, size, salt=0, chunk=None):
        super().__init__()
        self.size, self.salt, self.chunk, self.p = size, salt, chunk, 0

    @staticmethod
    def byte(p, salt):
        return (p * 2654435761 >> 7 ^ p >> 3 ^ p ^ salt * 97) & 0xFF

    def slice(self, a, b):
        return bytes(self.byte(p, self.salt) for p in range(a, min(b, self.size)))

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, o, whence=0):
        o = o + (0, self.p, self.size)[whence]
        if o < 0:
            raise ValueError('negative seek')
        self.p = o
        return o

    def tell(self):
        return self.p

    def read(self, n=-1):
        n = self.size - self.p if n is None or n < 0 else n
        n = max(0, min(n, self.size - self.p))
        if self.chunk and n > self.chunk:
            n = self.chunk
        r = self.slice(self.p, self.p + n)
        self.p += n
        return r

    def readinto(self, b):
        r = self.read(len(b))
        b[: len(r)] = r
        return len(r)


class Content:
    """content as a list of (Pattern, offset, size) pieces or bytes, without materialising it"""

    def __init__(self, pieces):
        self.pieces = [p for p in pieces if (len(p) if isinstance(p, bytes) else p[2]) > 0]
        self.size = sum(len(p) if isinstance(p, bytes) else p[2] for p in self.pieces)

    def slice(self, a, b):
        out, at = b'', 0
        for p in self.pieces:
            n = len(p) if isinstance(p, bytes) else p[2]
            lo, hi = max(a, at), min(b, at + n)
            if lo < hi:
                if isinstance(p, bytes):
                    out += p[lo - at: hi - at]
                else:
                    out += p[0].slice(p[1] + lo - at, p[1] + hi - at)
            at += n
        return out


def file_ops(rng, size, boundaries, n, big=False):
    """a history of seeks and reads biased to the boundaries"""
    ops = []
    pts = sorted({0, size, *boundaries})
    for _ in range(n):
        k = rng.random()
        if k < 0.45:
            b = rng.choice(pts) + rng.choice((-2, -1, 0, 0, 1, 2))
            w = rng.choice((0, 0, 0, 1, 2))
            ops.append(('seek', b if w == 0 else b - size if w == 2 else rng.choice((-3, -1, 0, 1, 2, 5, -size)), w))
        elif k < 0.9:
            m = rng.choice((0, 1, 1, 2, 3, 4, 5, 7, 8)) if not big else rng.choice((0, 1, 3, 100, 8191, 8192, 8193, 20000))
            if rng.random() < 0.3 and len(pts) > 1:
                i = rng.randrange(len(pts) - 1)
                m = min(30000, pts[i + 1] - pts[i] + rng.choice((-1, 0, 1)))
                m = max(0, m)
            ops.append(('read', m))
        elif k < 0.95 and size < 60000:
            ops.append(('readall',))
        else:
            ops.append(('tell',))
    return ops


def run_file_ops(c, f, content, ops, short=False, rejects=True):
    """compare f with an in-memory file of the given content (Content or bytes)"""
    if isinstance(content, (bytes, bytearray)):
        content = Content([bytes(content)])
    size = content.size
    pos = 0
    for n, op in enumerate(ops):
        if op[0] == 'seek':
            target = op[1] + (0, pos, size)[op[2]]
            try:
                got = f.seek(op[1], op[2])
            except (ValueError, OSError):
                c.check(target < 0, f'seek to a valid position is rejected (operation {n})', op=op, position=pos, size=size)
                got = None
            if got is not None:
                if target < 0 and not rejects:
                    target = 0
                c.check(target >= 0, f'seek before the start is accepted (operation {n})', op=op, got=got)
                pos = target
                c.check(got == pos, f'seek returns a wrong position (operation {n})', expected=pos, got=got, op=op)
        elif op[0] == 'tell':
            pass
        else:
            m = op[1] if op[0] == 'read' else -1
            got = f.read(m) if m != -1 else f.read()
            want = content.slice(pos, size if m < 0 else min(size, pos + m))
            got = bytes(got)
            if short:
                c.check(want.startswith(got), f'read returns wrong bytes (operation {n})', expected=want[:100], got=got[:100], op=op, position=pos)
                c.check(bool(got) or not want, f'end of file before the end (operation {n})', op=op, position=pos, size=size)
            else:
                if got != want:
                    d = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
                    c.check(False, f'read returns wrong bytes (operation {n})', expected=want[:200], got=got[:200],
                            lengths=(len(want), len(got)), first_difference=d, op=op, position=pos, size=size)
            pos += len(got)
        t = f.tell()
        c.check(t == pos, f'tell disagrees after operation {n}', expected=pos, got=t, op=op)


def tree_bytes(path):
    """all files below path: relative name -> (type, mode, content or link target)"""
    out = {}
    for root, dirs, files in os.walk(path):
        for name in dirs + files:
            p = os.path.join(root, name)
            st = os.lstat(p)
            rel = os.path.relpath(p, path)
            if os.path.islink(p):
                out[rel] = ('l', os.readlink(p))
            elif os.path.isdir(p):
                out[rel] = ('d', st.st_mode)
            else:
                with open(p, 'rb') as f:
                    out[rel] = ('f', st.st_mode, f.read())
    return out


def quiet():
    """Memoises the slow, pure look-up of installed package versions and silences logging, for thousands of small archives."""
    import functools
    import logging
    import sys

    import ratarmountcore.SQLiteIndex
    from ratarmountcore import utils

    logging.disable(logging.CRITICAL)
    fast = functools.lru_cache(None)(utils.find_module_version)
    for m in list(sys.modules.values()):
        if getattr(m, '__name__', '').startswith('ratarmount') and getattr(m, 'find_module_version', None) is utils.find_module_version:
            if m is not utils:
                m.find_module_version = fast
