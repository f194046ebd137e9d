"""Symbolic values.  Python ints are mathematical integers, so nothing is lost by z3's Int sort."""
import pyvc  # noqa: F401
import z3

Val = z3.DeclareSort('Val')  # opaque, immutable Python value: only equality is known


class Unsupported(Exception):
    """The code left the subset the verifier understands.  Never a violation by itself."""


class PyRaise(Exception):
    """A Python exception of the interpreted program."""

    def __init__(self, cls, args=(), obj=None):
        super().__init__(cls.__name__)
        self.cls = cls
        self.exc_args = args
        self.obj = obj
        self.where = None


class PathEnd(Exception):
    """This path needs no further exploration (infeasible, or cut at a loop invariant)."""


class Sym:
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return f'{type(self).__name__}({self.z})'

    def __bool__(self):
        raise Unsupported(f'symbolic value used as a host bool: {self!r}')

    def __eq__(self, other):
        raise Unsupported('host == on symbolic value')

    __hash__ = object.__hash__


class SInt(Sym):
    __slots__ = ()


class SBool(Sym):
    __slots__ = ()


class SReal(Sym):
    __slots__ = ()


class SStr(Sym):
    __slots__ = ()


class SChar(SStr):
    """a character of a string"""
    __slots__ = ()


class SVal(Sym):
    """Opaque value of sort Val."""
    __slots__ = ()


class SBytes:
    """Immutable byte string: length and a total function index -> byte."""

    def __init__(self, length, at):
        self.length = length if z3.is_expr(length) else z3.IntVal(length)
        self.at = at

    def __repr__(self):
        return f'SBytes(len={self.length})'

    def __bool__(self):
        raise Unsupported('symbolic bytes used as a host bool')


class SList:
    """List (mutable) or symbolic tuple.  Either .items is a Python list of values (known length) or
    .length / .elem (z3 index -> value) describe a list of symbolic length."""

    def __init__(self, length=None, elem=None, mutable=True, tag='', items=None):
        self.items = items
        self._length = length
        self.elem_ = elem
        self.mutable = mutable
        self.tag = tag
        self.serial = None

    @property
    def length(self):
        if self.items is not None:
            return z3.IntVal(len(self.items))
        return self._length if z3.is_expr(self._length) else z3.IntVal(self._length)

    def become(self, length, elem):
        self.items, self._length, self.elem_ = None, length, elem

    def assign(self, other):
        self.items = None if other.items is None else list(other.items)
        self._length, self.elem_ = other._length, other.elem_

    def copy(self, mutable=True):
        r = SList(self._length, self.elem_, mutable, self.tag)
        r.items = None if self.items is None else list(self.items)
        return r

    def elem(self, i):
        """value at z3/int index i (must be in range)"""
        if self.items is not None:
            if isinstance(i, int):
                return self.items[i]
            si = z3.simplify(i)
            if z3.is_int_value(si):
                return self.items[si.as_long()]
            return merge_items(self.items, i)
        return self.elem_(i if z3.is_expr(i) else z3.IntVal(i))

    def __repr__(self):
        return f'SList{self.tag}({self.items if self.items is not None else self._length})'

    def __bool__(self):
        raise Unsupported('list used as a host bool')


def merge_items(items, i):
    if not items:
        raise Unsupported('element of an empty list at a symbolic index')
    if all(isinstance(x, (int, SInt)) and not isinstance(x, bool) for x in items):
        r = zi(items[-1])
        for k in range(len(items) - 2, -1, -1):
            r = z3.If(i == k, zi(items[k]), r)
        return SInt(r)
    if all(isinstance(x, (str, SStr)) for x in items):
        r = zs(items[-1])
        for k in range(len(items) - 2, -1, -1):
            r = z3.If(i == k, zs(items[k]), r)
        return SStr(r)
    raise Unsupported('symbolic index into a list of mixed values')


class SDict:
    """Mutable map.  Either .items is a list of [key, value] pairs (keys pairwise distinct on this path), or
    has / get closures over an encoded key describe a map of unknown contents."""

    def __init__(self, key=None, has=None, get=None, size=None, tag='', order=None, items=None):
        self.key, self.has, self.get, self.size, self.tag, self.order = key, has, get, size, tag, order
        self.items = items
        self.serial = None
        self.default = None  # defaultdict factory

    def __repr__(self):
        return f'SDict{self.tag}({self.items})'

    def __bool__(self):
        raise Unsupported('dict used as a host bool')


class SSet:
    """Mutable set: .items list of pairwise distinct values, or has closure."""

    def __init__(self, items=None, key=None, has=None, tag=''):
        self.items, self.key, self.has, self.tag = items, key, has, tag
        self.serial = None

    def __bool__(self):
        raise Unsupported('set used as a host bool')


class Obj:
    """Mutable heap object of a repository class (or a plain record when cls is None)."""

    def __init__(self, cls, fields=None, tag=''):
        self.cls = cls
        self.fields = {} if fields is None else fields
        self.tag = tag
        self.frozen = False  # a copy whose identity is not tracked: it must not be modified
        self.serial = None

    def __repr__(self):
        return f'<{self.tag or (self.cls.__name__ if self.cls else "rec")}>'


class Model:
    """Base class of host models of external objects: methods are m_NAME(vc, ...), attributes a_NAME(vc)."""
    tag = ''


class Poison(Model):
    """A variable whose value after a loop the contract leaves open.  Reading it is Unsupported."""

    def __init__(self, name):
        self.name = name


class Bound:
    def __init__(self, self_, fn, name=''):
        self.self_, self.fn, self.name = self_, fn, name


class Host:
    """Host-implemented callable: f(vc, *args, **kwargs)."""

    def __init__(self, f, name=''):
        self.f, self.name = f, name or getattr(f, '__name__', '?')


class Closure:
    def __init__(self, node, scope, name, globals_, defaults, kwdefaults, cls=None):
        self.node, self.scope, self.name, self.globals_ = node, scope, name, globals_
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls


class SuperProxy:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


def zi(x):
    """value -> z3 Int"""
    if isinstance(x, SInt):
        return x.z
    if isinstance(x, SBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(int(x))
    if z3.is_expr(x):
        return x
    raise Unsupported(f'not an int: {x!r}')


def zb(x):
    if isinstance(x, SBool):
        return x.z
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3.is_expr(x):
        return x
    raise Unsupported(f'not a bool: {x!r}')


def zs(x):
    if isinstance(x, SStr):
        return x.z
    if isinstance(x, str):
        return z3.StringVal(x)
    if z3.is_expr(x):
        return x
    raise Unsupported(f'not a str: {x!r}')


def is_sym(x):
    return isinstance(x, (Sym, SBytes, SList, SDict, SSet))


def is_plain(x, depth=0):
    """True when x is an ordinary Python value with nothing symbolic inside."""
    if isinstance(x, SList) and x.items is not None:
        return all(is_plain(y, depth + 1) for y in x.items)
    if isinstance(x, SDict) and x.items is not None:
        return all(is_plain(k, depth + 1) and is_plain(v, depth + 1) for k, v in x.items)
    if isinstance(x, SSet) and x.items is not None:
        return all(is_plain(y, depth + 1) for y in x.items)
    if is_sym(x) or isinstance(x, (Obj, Model, Bound, Host, Closure, SuperProxy)):
        return False
    if depth > 6:
        return False
    if isinstance(x, (list, tuple, set, frozenset)):
        return all(is_plain(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return all(is_plain(k, depth + 1) and is_plain(v, depth + 1) for k, v in x.items())
    return True


def sbytes_of(b):
    if isinstance(b, SBytes):
        return b
    if isinstance(b, (bytes, bytearray)):
        data = bytes(b)
        n = len(data)
        if len(set(data)) == 1:
            v = z3.IntVal(data[0])
            return SBytes(n, lambda i: v)

        def at(i):
            r = z3.IntVal(0)
            for k in range(n - 1, -1, -1):
                r = z3.If(i == k, z3.IntVal(data[k]), r)
            return r

        return SBytes(n, at)
    raise Unsupported(f'not bytes: {b!r}')


def to_native(x):
    if isinstance(x, SList):
        r = [to_native(y) for y in x.items]
        return r if x.mutable else tuple(r)
    if isinstance(x, SDict):
        return {to_native(k): to_native(v) for k, v in x.items}
    if isinstance(x, SSet):
        return {to_native(y) for y in x.items}
    if isinstance(x, tuple):
        return tuple(to_native(y) for y in x)
    return x


def from_native(x):
    if isinstance(x, list):
        return SList(items=[from_native(y) for y in x])
    if isinstance(x, dict) and type(x) is dict:
        return SDict(items=[[from_native(k), from_native(v)] for k, v in x.items()])
    if isinstance(x, (set, frozenset)):
        return SSet(items=[from_native(y) for y in x])
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(from_native(y) for y in x)
    return x
