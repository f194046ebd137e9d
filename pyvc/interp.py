"""Symbolic interpreter for the Python AST of /repo's functions (extracted from the files on every run)."""
import ast
import builtins
import dataclasses
import functools
import hashlib
import inspect
import os
import types

import z3

from . import ops
from .values import *  # noqa: F403
from .values import (Bound, Closure, Host, Model, Obj, PathEnd, Poison, PyRaise, SBool, SBytes, SDict, SInt, SList, SSet, SStr,
                     SuperProxy, Sym, Unsupported, from_native, is_plain, is_sym, to_native, zi)

REPO = os.environ.get('PYVC_REPO', '/repo')


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


# ------------------------------------------------------------------------------------------------------------------
# Extraction


class Source:
    _files = {}

    @classmethod
    def file(cls, path):
        if path not in cls._files:
            with open(path, encoding='utf-8') as f:
                text = f.read()
            tree = ast.parse(text)
            index = {}

            def walk(node, qual, klass):
                for child in ast.iter_child_nodes(node):
                    if isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        q = f'{qual}{child.name}'
                        line = min([child.lineno] + [d.lineno for d in child.decorator_list])
                        index[(q, line)] = (child, klass)
                        index.setdefault(q, (child, klass))
                        walk(child, q + '.<locals>.', None)
                    elif isinstance(child, ast.ClassDef):
                        walk(child, f'{qual}{child.name}.', f'{qual}{child.name}')
                    else:
                        walk(child, qual, klass)

            walk(tree, '', None)
            cls._files[path] = (tree, index, text)
        return cls._files[path]

    @classmethod
    def of(cls, fn):
        """real Python function -> (ast node, enclosing class qualname)"""
        code = fn.__code__
        path = os.path.realpath(code.co_filename)
        if not path.startswith(os.path.realpath(REPO) + os.sep):
            raise Unsupported(f'{fn.__qualname__} is not repository code')
        _tree, index, _text = cls.file(path)
        key = (fn.__qualname__, code.co_firstlineno)
        if key in index:
            return index[key]
        if fn.__qualname__ in index:
            return index[fn.__qualname__]
        raise Unsupported(f'no source for {fn.__qualname__}')


def norm_hash(node):
    """Hash of the function without docstrings, comments and positions."""
    node = ast.parse(ast.unparse(node))
    for n in ast.walk(node):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and n.body:
            first = n.body[0]
            if isinstance(first, ast.Expr) and isinstance(first.value, ast.Constant) and isinstance(first.value.value, str):
                n.body = n.body[1:] or [ast.Pass()]
    return hashlib.sha256(ast.dump(node).encode()).hexdigest()[:16]


def is_repo_function(fn):
    return isinstance(fn, types.FunctionType) and os.path.realpath(fn.__code__.co_filename).startswith(
        os.path.realpath(REPO) + os.sep
    )


# ------------------------------------------------------------------------------------------------------------------


class Scope:
    def __init__(self, parent, globals_):
        self.vars = {}
        self.parent = parent
        self.globals = globals_
        self.nonlocals = set()
        self.global_names = set()

    overrides = {}  # module globals of the interpreted program that were assigned or are given by the harness

    def lookup(self, name):
        s = self
        while s is not None:
            if name in s.vars:
                return s.vars[name]
            s = s.parent
        if name in Scope.overrides:
            return Scope.overrides[name]
        if name in self.globals:
            return from_native_global(self.globals[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError, (name,))

    def has(self, name):
        s = self
        while s is not None:
            if name in s.vars:
                return True
            s = s.parent
        return False

    def store(self, name, value):
        if name in self.global_names:
            Scope.overrides[name] = value
            return
        if name in self.nonlocals:
            s = self.parent
            while s is not None:
                if name in s.vars:
                    s.vars[name] = value
                    return
                s = s.parent
            raise Unsupported(f'global statement: {name}')
        self.vars[name] = value


def from_native_global(x):
    if isinstance(x, (list, dict, set, frozenset)):
        r = from_native(x)
        if hasattr(r, 'serial'):
            r.serial = -1
        return r
    return x


# Functions whose loop contracts are not used: they were written for other loops.
UNROLLED: set = set()


class LoopSpec:
    def __init__(self, inv, havoc=None, heap=None, decreases=None, bound=None, body_env=None):
        self.inv, self.havoc, self.heap, self.decreases = inv, havoc or {}, heap, decreases
        self.bound = bound


class View:
    """Contract-side view of a scope: a vanished name means that the contract no longer fits the code."""

    def __init__(self, scope, extra=None):
        object.__setattr__(self, '_s', scope)
        object.__setattr__(self, '_x', extra or {})

    def __getattr__(self, name):
        if name in self._x:
            return self._x[name]
        if self._s.has(name):
            v = self._s.lookup(name)
            if not isinstance(v, Poison):
                return v
        raise Unsupported(f'the loop contract refers to the local variable {name!r}, which the code does not have here')

    def has(self, name):
        return name in self._x or self._s.has(name)


class Contract:
    """Base class.  Subclasses are written in /verif/checks; see DESIGN.md."""
    target = None  # real function

    def setup(self, vc):
        """-> (args, kwargs); assumes the precondition"""
        raise NotImplementedError

    def post(self, vc, args, result):
        """proves the postcondition with vc.prove"""
        raise NotImplementedError

    def raises(self, vc, args, exc):
        """The function raised exc (a PyRaise).  Default: not allowed."""
        vc.prove(False, f'no {exc.cls.__name__} escapes ({exc.where})')

    def apply(self, interp, vc, args, kwargs):
        """Modular call: check the precondition, return a fresh result constrained by the postcondition."""
        raise NotImplementedError


class Interp:
    def __init__(self, vc, contracts=None, loops=None, models=None, unroll=3, inline_limit=40):
        self.vc = vc
        self.contracts = contracts or {}
        self.loops = loops or {}
        self.models = dict(ops.MODELS)
        self.models.update(models or {})
        self.unroll = unroll
        self.depth = 0
        self.top = None
        self.last_scope = None
        self.inline_limit = inline_limit
        vc.interp = self
        Scope.overrides = self.global_values = {}

    # ---- calls ---------------------------------------------------------------------------------------------

    def run_function(self, fn, args, kwargs=None):
        """Execute the body of the real function fn (the one under verification)."""
        self.top = fn
        return self.call_repo(fn, args, kwargs or {}, under_test=True)

    def call_repo(self, fn, args, kwargs, under_test=False):
        inner = inspect.unwrap(fn) if hasattr(fn, '__wrapped__') else fn
        q = f'{inner.__module__}:{inner.__qualname__}'
        if not under_test and q in self.contracts:
            self.vc.report.assumed_contracts.add(q)
            return self.contracts[q](self, self.vc, *args, **kwargs)
        if inner is not fn:
            raise Unsupported(f'decorated function {q} without a contract')
        node, klass = Source.of(fn)
        if q not in self.vc.report.sources:
            self.vc.report.sources[q] = norm_hash(node)
        if not under_test:
            self.vc.report.inlined.add(q)
        cell = {}
        if fn.__closure__:
            cell = {k: c.cell_contents for k, c in zip(fn.__code__.co_freevars, fn.__closure__) if _cell_ok(c)}
        parent = None
        if cell:
            parent = Scope(None, fn.__globals__)
            parent.vars.update({k: from_native_global(v) for k, v in cell.items()})
        cls = None
        if klass:
            cls = fn.__globals__.get(klass.split('.')[0])
            for part in klass.split('.')[1:]:
                cls = getattr(cls, part, None)
        defaults = tuple(from_native(d) for d in (fn.__defaults__ or ()))
        kwdefaults = {k: from_native(v) for k, v in (fn.__kwdefaults__ or {}).items()}
        return self.exec_function(node, parent, fn.__globals__, q, defaults, kwdefaults, args, kwargs, cls)

    def exec_function(self, node, parent, globals_, qual, defaults, kwdefaults, args, kwargs, cls):
        self.depth += 1
        if self.depth > self.inline_limit:
            self.depth -= 1
            raise Unsupported(f'call depth limit at {qual} (recursion without a contract)')
        try:
            scope = Scope(parent, globals_)
            self.bind(scope, node.args, defaults, kwdefaults, list(args), dict(kwargs), qual)
            if cls is not None:
                scope.vars['__class__'] = cls
            if isinstance(node, ast.Lambda):
                return Frame(self, scope, qual, node).expr(node.body)
            frame = Frame(self, scope, qual, node)
            if self.depth == 1:
                self.last_scope = scope.vars
            try:
                frame.block(node.body)
            except ReturnEx as r:
                if frame.generator:
                    return SList(items=frame.yielded)
                return r.value
            if frame.generator:
                return SList(items=frame.yielded)
            return None
        finally:
            self.depth -= 1

    def bind(self, scope, a, defaults, kwdefaults, args, kwargs, qual):
        names = [x.arg for x in a.posonlyargs + a.args]
        n = len(names)
        if len(args) > n and not a.vararg:
            raise PyRaise(TypeError, (f'{qual}: too many positional arguments',))
        for name, value in zip(names, args):
            scope.vars[name] = value
        rest = args[n:]
        if a.vararg:
            scope.vars[a.vararg.arg] = tuple(rest)
        for i in range(len(args), n):
            name = names[i]
            if name in kwargs:
                scope.vars[name] = kwargs.pop(name)
            else:
                k = i - (n - len(defaults))
                if k < 0:
                    raise PyRaise(TypeError, (f'{qual}: missing argument {name}',))
                scope.vars[name] = defaults[k]
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                scope.vars[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                scope.vars[x.arg] = kwdefaults[x.arg]
            else:
                raise PyRaise(TypeError, (f'{qual}: missing keyword argument {x.arg}',))
        if a.kwarg:
            scope.vars[a.kwarg.arg] = SDict(items=[[k, v] for k, v in kwargs.items()])
        elif kwargs:
            raise PyRaise(TypeError, (f'{qual}: unexpected keyword arguments {sorted(kwargs)}',))

    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        if isinstance(f, Host):
            return f.f(self.vc, *args, **kwargs)
        if isinstance(f, Closure):
            return self.exec_function(f.node, f.scope, f.globals_, f.name, f.defaults, f.kwdefaults, args, kwargs, f.cls)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_, *args], kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, [*f.args, *args], {**f.keywords, **kwargs})
        try:
            model = self.models.get(f)
        except TypeError:
            model = None
        if model is not None:
            return model(self.vc, *args, **kwargs)
        if isinstance(f, Obj):
            m = self.find_method(f, '__call__')
            if m is not None:
                return self.call(m, args, kwargs)
        if isinstance(f, Model) and hasattr(f, 'm___call__'):
            return f.m___call__(self.vc, *args, **kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__, *args], kwargs)
        if isinstance(f, types.FunctionType):
            if is_repo_function(f):
                return self.call_repo(f, args, kwargs)
            inner = inspect.unwrap(f)
            if inner is not f and is_repo_function(inner):
                return self.call_repo(f, args, kwargs)
        if getattr(f, '__name__', '') == '__init__' and isinstance(f, types.WrapperDescriptorType):
            return None  # constructor of an external base class
        if callable(f) and all(is_plain(x) for x in args) and all(is_plain(x) for x in kwargs.values()):
            if pure(f):
                self.vc.report.trusted.add(f'native: {getattr(f, "__module__", "")}.{getattr(f, "__qualname__", f)}')
                try:
                    return from_native(f(*[to_native(x) for x in args], **{k: to_native(v) for k, v in kwargs.items()}))
                except Exception as e:  # pylint: disable=broad-except
                    raise PyRaise(type(e), e.args) from e
        raise Unsupported(f'call of {f!r} with {[type(x).__name__ for x in args]}')

    def instantiate(self, cls, args, kwargs):
        q = f'{cls.__module__}:{cls.__qualname__}'
        if q in self.contracts:
            self.vc.report.assumed_contracts.add(q)
            return self.contracts[q](self, self.vc, *args, **kwargs)
        if issubclass(cls, BaseException):
            obj = self.vc.new(Obj(cls, {'args': tuple(args)}, cls.__name__))
            return obj
        if dataclasses.is_dataclass(cls):
            return self.make_dataclass(cls, args, kwargs)
        if cls.__module__.split('.')[0] in ('ratarmount', 'ratarmountcore'):
            obj = self.vc.new(Obj(cls, {}, cls.__name__))
            if issubclass(cls, tuple) and hasattr(cls, '_fields'):
                for k, v in zip(cls._fields, args):
                    obj.fields[k] = v
                obj.fields.update(kwargs)
                return obj
            init = getattr(cls, '__init__', None)
            if is_repo_function(init):
                self.call_repo(init, [obj, *args], kwargs)
            elif args or kwargs:
                raise Unsupported(f'constructor of {cls!r}')
            return obj
        raise Unsupported(f'instantiation of {cls!r}')

    def make_dataclass(self, cls, args, kwargs):
        obj = self.vc.new(Obj(cls, {}, cls.__name__))
        fs = [f for f in dataclasses.fields(cls) if f.init]
        for f, v in zip(fs, args):
            obj.fields[f.name] = v
        for k, v in kwargs.items():
            if k not in {f.name for f in fs}:
                raise PyRaise(TypeError, (f'unexpected keyword {k}',))
            obj.fields[k] = v
        for f in dataclasses.fields(cls):
            if f.name not in obj.fields:
                if f.default is not dataclasses.MISSING:
                    obj.fields[f.name] = from_native(f.default)
                elif f.default_factory is not dataclasses.MISSING:
                    obj.fields[f.name] = self.call(f.default_factory)
                elif f.init:
                    raise PyRaise(TypeError, (f'missing argument {f.name}',))
        if hasattr(cls, '__post_init__'):
            self.call(Bound(obj, cls.__post_init__))
        return obj

    def find_method(self, obj, name):
        if obj.cls is None:
            return None
        for c in obj.cls.__mro__:
            if name in c.__dict__:
                m = c.__dict__[name]
                if isinstance(m, staticmethod):
                    return m.__func__
                if isinstance(m, classmethod):
                    return Bound(obj.cls, m.__func__)
                if isinstance(m, types.FunctionType):
                    return Bound(obj, m)
                return Bound(obj, m, name)
        return None

    # ---- attributes ----------------------------------------------------------------------------------------

    def getattr(self, obj, name):
        vc = self.vc
        if isinstance(obj, Obj):
            if name in obj.fields:
                if isinstance(obj.fields[name], Poison):
                    raise Unsupported(f'{name} is read after a loop whose contract leaves it open')
                return obj.fields[name]
            if name == '__class__':
                return obj.cls
            if name == '__dict__':
                raise Unsupported('__dict__')
            if obj.cls is not None:
                for c in obj.cls.__mro__:
                    if name in c.__dict__:
                        m = c.__dict__[name]
                        key = (c, name)
                        if key in self.models:
                            return Bound(obj, Host(self.models[key], name))
                        if isinstance(m, property):
                            return self.call(m.fget, [obj])
                        if isinstance(m, staticmethod):
                            return m.__func__
                        if isinstance(m, classmethod):
                            return Bound(obj.cls, m.__func__)
                        if isinstance(m, types.FunctionType):
                            return Bound(obj, m)
                        if callable(m) or isinstance(m, (types.GetSetDescriptorType, types.MemberDescriptorType)):
                            if isinstance(m, type):
                                return m
                            raise Unsupported(f'attribute {c.__name__}.{name} of an external base class')
                        return from_native_global(m)
                attr = ('__getattr__', obj.cls)
                if attr in self.models:
                    return self.models[attr](vc, obj, name)
            raise PyRaise(AttributeError, (name,))
        if isinstance(obj, Model):
            if hasattr(obj, 'a_' + name):
                return getattr(obj, 'a_' + name)(vc)
            if hasattr(obj, 'm_' + name):
                return Host(getattr(obj, 'm_' + name), name)
            raise Unsupported(f'model {type(obj).__name__} has no {name}')
        if isinstance(obj, SuperProxy):
            mro = obj.obj.cls.__mro__ if isinstance(obj.obj, Obj) else obj.obj.__mro__
            i = mro.index(obj.cls) + 1
            for c in mro[i:]:
                if name in c.__dict__:
                    if (c, name) in self.models:
                        return Bound(obj.obj, Host(self.models[(c, name)], name))
                    m = c.__dict__[name]
                    if isinstance(m, staticmethod):
                        return m.__func__
                    if isinstance(m, types.FunctionType):
                        return Bound(obj.obj, m)
                    if name == '__init__':
                        return Host(lambda vc, *a, **k: None, 'external __init__')
                    if name in ('__exit__', '__enter__', 'close', '__del__'):
                        return Host(lambda vc, *a, **k: None, f'external {name}')
                    raise Unsupported(f'super().{name} in {c!r}')
            if name == '__init__':
                return Host(lambda vc, *a, **k: None, 'object.__init__')
            raise PyRaise(AttributeError, (name,))
        if isinstance(obj, (SStr, SBytes, SList, SDict, SSet, SInt, SBool, Sym)):
            return ops.method(vc, obj, name)
        if isinstance(obj, (str, bytes, tuple)) and not isinstance(obj, type) and ops.has_method(obj, name):
            return ops.method(vc, obj, name)
        if isinstance(obj, type):
            if (obj, name) in self.models:
                return Host(self.models[(obj, name)], name)
            for c in obj.__mro__:
                if name in c.__dict__:
                    m = c.__dict__[name]
                    if isinstance(m, staticmethod):
                        return m.__func__
                    if isinstance(m, classmethod):
                        return Bound(obj, m.__func__) if isinstance(m.__func__, types.FunctionType) else getattr(obj, name)
                    break
        if isinstance(obj, (Bound, Host, Closure)):
            if name == '__name__':
                return getattr(obj, 'name', '?')
            raise Unsupported(f'attribute {name} of a function value')
        if obj is None and not hasattr(None, name):
            raise PyRaise(AttributeError, (f"'NoneType' object has no attribute {name!r}",))
        try:
            return from_native_global(getattr(obj, name))
        except AttributeError as e:
            raise PyRaise(AttributeError, e.args) from e

    def setattr(self, obj, name, value):
        if isinstance(obj, Obj):
            if obj.frozen:
                raise Unsupported(f'assignment to attribute {name} of a copy')
            if obj.cls is not None:
                for c in obj.cls.__mro__:
                    m = c.__dict__.get(name)
                    if isinstance(m, property):
                        if m.fset is None:
                            raise PyRaise(AttributeError, (name,))
                        self.call(m.fset, [obj, value])
                        return
            obj.fields[name] = value
            self.vc.log_write(obj, name)
            return
        if isinstance(obj, Model) and hasattr(obj, 's_' + name):
            getattr(obj, 's_' + name)(self.vc, value)
            return
        raise Unsupported(f'assignment to attribute {name} of {obj!r}')

    def truth(self, x):
        """-> host bool, forking if necessary"""
        t = ops.truth(self.vc, x)
        return t if isinstance(t, bool) else self.vc.branch(t)


def _cell_ok(c):
    try:
        c.cell_contents  # pylint: disable=pointless-statement
        return True
    except ValueError:
        return False


PURE_MODULES = {'posixpath', 'genericpath', 'stat', '_stat', 'math', 'struct', '_struct', 're', '_bisect', 'bisect',
                'string', 'itertools', 'operator', '_operator', 'ntpath', 'binascii', 'zlib', 'shlex'}
PURE_BUILTINS = {len, min, max, abs, sum, sorted, reversed, enumerate, zip, range, int, float, str, bytes, bool, repr,
                 chr, ord, hex, oct, bin, divmod, pow, round, any, all, tuple, list, dict, set, frozenset, format,
                 isinstance, issubclass, callable, slice, bytearray, hash, type, map, filter}
IMPURE_PATH = {'exists', 'isfile', 'isdir', 'islink', 'realpath', 'abspath', 'expanduser', 'getsize', 'lexists',
               'ismount', 'samefile', 'getmtime', 'isabs_', 'relpath', 'expandvars'}


def pure(f):
    try:
        if f in PURE_BUILTINS:
            return True
    except TypeError:
        return False
    name = getattr(f, '__name__', '')
    mod = getattr(f, '__module__', None)
    if mod in PURE_MODULES and name not in IMPURE_PATH:
        return True
    s = getattr(f, '__self__', None)
    if isinstance(s, (str, bytes, int, float, tuple)):
        return True
    if isinstance(s, type) and s in (str, bytes, int, float, dict):
        return True
    return False


# ------------------------------------------------------------------------------------------------------------------


def assigned_names(nodes):
    names = set()

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    names.add(sub.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            visit(c)

    for n in nodes:
        visit(n)
    return names


class Frame:
    def __init__(self, interp, scope, qual, node):
        self.i, self.vc, self.scope, self.qual, self.node = interp, interp.vc, scope, qual, node
        self.generator = False
        self.yielded = []
        self.loop_no = {}
        if not isinstance(node, ast.Lambda):
            loops = []

            def walk(n):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                        continue
                    if isinstance(c, (ast.For, ast.While)):
                        loops.append(c)
                    if isinstance(c, (ast.Yield, ast.YieldFrom)):
                        self.generator = True
                    walk(c)

            walk(node)
            loops.sort(key=lambda n: (n.lineno, n.col_offset))
            self.loop_no = {id(n): k for k, n in enumerate(loops)}

    # ---- statements ----------------------------------------------------------------------------------------

    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        self.vc.fuel -= 1
        if self.vc.fuel < 0:
            raise Unsupported('interpreter fuel exhausted (unbounded concrete loop?)')
        self.vc.where = f'{self.qual.split(":")[-1]}:{getattr(s, "lineno", "?")}'
        try:
            return getattr(self, 's_' + type(s).__name__, self.s_unknown)(s)
        except PyRaise as e:
            if e.where is None:
                e.where = f'{self.qual.split(":")[-1]}:{getattr(s, "lineno", "?")}'
            raise

    def s_unknown(self, s):
        raise Unsupported(f'statement {type(s).__name__} at {self.vc.where}')

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield,)):
            self.yielded.append(self.expr(s.value.value) if s.value.value else None)
            return
        if isinstance(s.value, ast.YieldFrom):
            self.yielded.extend(self.iterate_concrete(self.expr(s.value.value)))
            return
        self.expr(s.value)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        self.scope.global_names.update(s.names)

    def s_Nonlocal(self, s):
        self.scope.nonlocals.update(s.names)

    def s_Import(self, s):
        for a in s.names:
            mod = __import__(a.name)
            if a.asname:
                for part in a.name.split('.')[1:]:
                    mod = getattr(mod, part)
            self.scope.store(a.asname or a.name.split('.')[0], mod)

    def s_ImportFrom(self, s):
        import importlib

        if s.level:
            base = self.scope.globals['__package__']
            for _ in range(s.level - 1):
                base = base.rsplit('.', 1)[0]
            name = base + ('.' + s.module if s.module else '')
        else:
            name = s.module
        mod = importlib.import_module(name)
        for a in s.names:
            self.scope.store(a.asname or a.name, getattr(mod, a.name))

    def s_Return(self, s):
        raise ReturnEx(self.expr(s.value) if s.value else None)

    def s_Break(self, s):
        raise BreakEx

    def s_Continue(self, s):
        raise ContinueEx

    def s_Assign(self, s):
        v = self.expr(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value))

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.scope.lookup(t.id)
            self.scope.store(t.id, self.augop(s.op, cur, self.expr(s.value)))
        elif isinstance(t, ast.Attribute):
            obj = self.expr(t.value)
            cur = self.i.getattr(obj, t.attr)
            self.i.setattr(obj, t.attr, self.augop(s.op, cur, self.expr(s.value)))
        elif isinstance(t, ast.Subscript):
            obj = self.expr(t.value)
            key = self.expr(t.slice)
            cur = ops.getitem(self.vc, obj, key)
            ops.setitem(self.vc, obj, key, self.augop(s.op, cur, self.expr(s.value)))
        else:
            raise Unsupported('augmented assignment target')

    def augop(self, op, cur, val):
        if isinstance(cur, SList) and cur.mutable and isinstance(op, ast.Add):
            ops.list_extend(self.vc, cur, val)
            return cur
        return ops.binop(self.vc, type(op).__name__, cur, val)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.scope.store(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.i.setattr(self.expr(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.expr(t.value)
            if isinstance(t.slice, ast.Slice):
                ops.setslice(self.vc, obj, *[self.expr(x) if x else None for x in (t.slice.lower, t.slice.upper, t.slice.step)], v)
            else:
                ops.setitem(self.vc, obj, self.expr(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            starred = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = ops.unpack(self.vc, v, None if starred else len(t.elts))
            if starred:
                k = starred[0]
                tail = len(t.elts) - k - 1
                if len(vals) < len(t.elts) - 1:
                    raise PyRaise(ValueError, ('not enough values to unpack',))
                mid = vals[k:len(vals) - tail]
                vals = [*vals[:k], SList(items=list(mid)), *vals[len(vals) - tail:]]
            if len(vals) != len(t.elts):
                raise PyRaise(ValueError, ('unpack length mismatch',))
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x)
        else:
            raise Unsupported(f'assignment target {type(t).__name__}')

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.scope.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                ops.delitem(self.vc, self.expr(t.value), self.expr(t.slice))
            elif isinstance(t, ast.Attribute):
                obj = self.expr(t.value)
                if t.attr not in obj.fields:
                    raise PyRaise(AttributeError, (t.attr,))
                del obj.fields[t.attr]
                self.vc.log_write(obj, t.attr)
            else:
                raise Unsupported('del target')

    def s_If(self, s):
        self.block(s.body if self.i.truth(self.expr(s.test)) else s.orelse)

    def s_Assert(self, s):
        if not self.i.truth(self.expr(s.test)):
            raise PyRaise(AssertionError, (ast.unparse(s.test),))

    def s_Raise(self, s):
        if s.exc is None:
            cur = self.scope.vars.get('$exc') or self.find_exc()
            if cur is None:
                raise PyRaise(RuntimeError, ('No active exception to re-raise',))
            raise PyRaise(cur.cls, cur.exc_args, cur.obj)
        e = self.expr(s.exc)
        if s.cause is not None:
            self.expr(s.cause)
        self.raise_value(e)

    def find_exc(self):
        s = self.scope
        while s is not None:
            if '$exc' in s.vars:
                return s.vars['$exc']
            s = s.parent
        return None

    def raise_value(self, e):
        if isinstance(e, Obj) and e.cls is not None and issubclass(e.cls, BaseException):
            raise PyRaise(e.cls, e.fields.get('args', ()), e)
        if isinstance(e, type) and issubclass(e, BaseException):
            raise PyRaise(e, ())
        if isinstance(e, BaseException):
            raise PyRaise(type(e), e.args)
        raise Unsupported(f'raise {e!r}')

    def s_Try(self, s):
        try:
            try:
                self.block(s.body)
            except PyRaise as e:
                handler = self.match_handler(s.handlers, e)
                if handler is None:
                    raise
                saved = self.scope.vars.get('$exc')
                self.scope.vars['$exc'] = e
                if handler.name:
                    if e.obj is None:
                        e.obj = self.vc.new(Obj(e.cls, {'args': tuple(e.exc_args)}, e.cls.__name__))
                    self.scope.store(handler.name, e.obj)
                try:
                    self.block(handler.body)
                finally:
                    self.scope.vars['$exc'] = saved
                    if saved is None:
                        del self.scope.vars['$exc']
            else:
                self.block(s.orelse)
        except (PathEnd, Unsupported):
            raise
        except BaseException:
            if s.finalbody:
                self.block(s.finalbody)
            raise
        else:
            if s.finalbody:
                self.block(s.finalbody)

    def match_handler(self, handlers, e):
        for h in handlers:
            if h.type is None:
                return h
            t = self.expr(h.type)
            ts = t if isinstance(t, tuple) else (t,)
            for c in ts:
                if not (isinstance(c, type) and issubclass(c, BaseException)):
                    raise Unsupported(f'except {c!r}')
                if issubclass(e.cls, c):
                    return h
        return None

    def s_With(self, s):
        self.with_items(s.items, s.body)

    def with_items(self, items, body):
        if not items:
            self.block(body)
            return
        cm = self.expr(items[0].context_expr)
        enter, exit_ = ops.context_manager(self.vc, self.i, cm)
        v = enter()
        if items[0].optional_vars is not None:
            self.assign(items[0].optional_vars, v)
        try:
            self.with_items(items[1:], body)
        except (PathEnd, Unsupported):
            raise
        except PyRaise as e:
            if exit_(e):
                return
            raise
        except BaseException:
            exit_(None)
            raise
        else:
            exit_(None)

    def s_FunctionDef(self, s):
        if s.decorator_list:
            raise Unsupported('decorated local function')
        self.scope.store(s.name, self.closure(s, f'{self.qual}.<locals>.{s.name}'))

    def closure(self, node, name):
        a = node.args
        defaults = tuple(self.expr(d) for d in a.defaults)
        kwd = {x.arg: self.expr(d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return Closure(node, self.scope, name, self.scope.globals, defaults, kwd)

    # ---- loops ---------------------------------------------------------------------------------------------

    def spec(self, s):
        base = self.qual
        if base in UNROLLED:
            return None
        return self.i.loops.get((base, self.loop_no.get(id(s)))) or self.i.loops.get((base.split(':')[-1], self.loop_no.get(id(s))))

    def s_While(self, s):
        spec = self.spec(s)
        if spec is not None:
            self.loop_inv(s, spec, None)
            return
        n = forked = 0
        while True:
            pos0 = self.vc.pos
            if not self.i.truth(self.expr(s.test)):
                break
            if forked >= self.i.unroll:
                self.vc.report.bounded.append(f'{self.vc.where}: loop unrolled {self.i.unroll} times')
                raise PathEnd('unroll limit')
            n += 1
            if n > 3000:
                raise Unsupported('concrete loop does not terminate')
            try:
                self.block(s.body)
            except BreakEx:
                return
            except ContinueEx:
                pass
            if self.vc.pos != pos0:
                forked += 1
        self.block(s.orelse)

    def iterate_concrete(self, it):
        """-> host iterator over values; forks on symbolic lengths up to the unroll bound"""
        seq = ops.to_sequence(self.vc, it)
        if isinstance(seq, list):
            return seq
        out = []
        k = 0
        while self.vc.branch(seq.length > k):
            if k >= self.i.unroll:
                self.vc.report.bounded.append(f'{self.vc.where}: iteration unrolled {self.i.unroll} times')
                raise PathEnd('unroll limit')
            out.append(seq.elem(z3.IntVal(k)))
            k += 1
        return out

    def s_For(self, s):
        it = self.expr(s.iter)
        spec = self.spec(s)
        if spec is not None:
            self.loop_inv(s, spec, ops.to_sequence(self.vc, it, allow_items=True))
            return
        seq = ops.to_sequence(self.vc, it)
        if isinstance(seq, list):
            if isinstance(it, SList) and it.items is not None:
                seq = _Live(it)  # the body may mutate the list being iterated
            for x in seq:
                self.assign(s.target, x)
                try:
                    self.block(s.body)
                except BreakEx:
                    return
                except ContinueEx:
                    continue
            self.block(s.orelse)
            return
        k = 0
        while self.vc.branch(seq.length > k):
            if k >= self.i.unroll:
                self.vc.report.bounded.append(f'{self.vc.where}: iteration unrolled {self.i.unroll} times')
                raise PathEnd('unroll limit')
            self.assign(s.target, seq.elem(z3.IntVal(k)))
            k += 1
            try:
                self.block(s.body)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.block(s.orelse)

    def loop_inv(self, s, spec, seq):
        """Hoare rule for loops with an invariant."""
        vc, scope = self.vc, self.scope
        label = f'{self.qual.split(":")[-1]} loop {self.loop_no[id(s)]}'
        if isinstance(seq, list):
            seq = SList(items=seq)
        extra = {}
        if seq is not None:
            extra['seq'] = seq
            extra['k'] = SInt(z3.IntVal(0))
        extra['pre'] = View(_snapshot(scope), {})

        def check(tag, ex):
            for name, c in spec.inv(vc, View(scope, ex)):
                vc.prove(c, f'{label}: invariant "{name}" {tag}')

        check('holds on entry', extra)
        # havoc
        targets = assigned_names(s.body) | (assigned_names([s.target]) if seq is not None else assigned_names([s.test]))
        view = View(scope, extra)
        for name in sorted(targets):
            if name in spec.havoc:
                continue
            if scope.has(name):
                scope.store(name, ops.havoc_like(vc, scope.lookup(name), name))
        for name, factory in spec.havoc.items():
            if factory is None:
                scope.vars.pop(name, None)
                continue
            if not scope.has(name) and name not in targets:
                raise Unsupported(f'the loop contract refers to the local variable {name!r}, which the code does not have here')
            old = scope.lookup(name) if scope.has(name) else None
            new = factory(vc, view)
            if isinstance(old, SList) and old.mutable and isinstance(new, SList):
                old.assign(new)
            elif isinstance(old, (SDict, SSet)) and type(old) is type(new):
                for a in ('key', 'has', 'get', 'size', 'order', 'items'):
                    if hasattr(new, a):
                        setattr(old, a, getattr(new, a))
            else:
                scope.store(name, new)
        allowed = []
        if spec.heap:
            for obj, field, factory in spec.heap(vc, view):
                allowed.append((obj, field))
                if factory is False:
                    continue
                if isinstance(obj, Obj):
                    obj.fields[field] = factory(vc) if factory else ops.havoc_like(vc, obj.fields[field], field)
                elif factory:
                    factory(vc)
                else:
                    raise Unsupported('heap havoc without a factory')
        for name in spec.havoc:
            if scope.has(name):
                allowed.append((scope.lookup(name), None))
        k = None
        if seq is not None:
            k = vc.skolem('k_iter')
            vc.assume(z3.And(k >= 0, k <= seq.length))
            extra = {**extra, 'k': SInt(k)}
        for name, c in spec.inv(vc, View(scope, extra)):
            vc.assume(c)
        mark, nwrites = vc.serial, len(vc.writes)
        measure0 = spec.decreases(vc, View(scope, extra)) if spec.decreases else None
        if seq is not None and seq.items is not None and not seq.items:
            go = False
        elif seq is not None:
            go = vc.branch(k < seq.length)
        else:
            go = self.i.truth(self.expr(s.test))
        if not go:
            self.block(s.orelse)
            return
        if seq is not None:
            self.assign(s.target, seq.elem(k))
        try:
            self.block(s.body)
        except BreakEx:
            return
        except ContinueEx:
            pass
        extra2 = dict(extra)
        if seq is not None:
            extra2['k'] = SInt(k + 1)
        check('is preserved', extra2)
        if measure0 is not None:
            m1 = spec.decreases(vc, View(scope, extra2))
            vc.prove(z3.And(zi(measure0) >= 0, zi(m1) < zi(measure0)), f'{label}: variant decreases')
        for target, field in vc.writes[nwrites:]:
            if getattr(target, 'serial', None) is not None and target.serial > mark:
                continue
            if any(target is o and (f is None or f == field) for o, f in allowed):
                continue
            raise Unsupported(f'{label} writes {target!r}.{field}, which its contract does not name')
        raise PathEnd('loop body verified')

    # ---- expressions ---------------------------------------------------------------------------------------

    def expr(self, e):
        return getattr(self, 'e_' + type(e).__name__, self.e_unknown)(e)

    def e_unknown(self, e):
        raise Unsupported(f'expression {type(e).__name__}: {ast.unparse(e)[:80]}')

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        if e.id in self.i.models and isinstance(e.id, str):
            pass
        v = self.scope.lookup(e.id)
        if isinstance(v, Poison):
            raise Unsupported(f'{v.name} is read after a loop whose contract leaves it open')
        return v

    def e_Attribute(self, e):
        return self.i.getattr(self.expr(e.value), e.attr)

    def e_Tuple(self, e):
        return tuple(self.elements(e.elts))

    def e_List(self, e):
        return self.vc.new(SList(items=self.elements(e.elts)))

    def e_Set(self, e):
        r = self.vc.new(SSet(items=[]))
        for x in self.elements(e.elts):
            ops.set_add(self.vc, r, x)
        return r

    def elements(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate_concrete(self.expr(x.value)))
            else:
                out.append(self.expr(x))
        return out

    def e_Dict(self, e):
        r = self.vc.new(SDict(items=[]))
        for k, v in zip(e.keys, e.values):
            if k is None:
                ops.dict_update(self.vc, r, self.expr(v))
            else:
                kk = self.expr(k)
                ops.setitem(self.vc, r, kk, self.expr(v))
        return r

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)
        v = None
        for k, sub in enumerate(e.values):
            v = self.expr(sub)
            if k == len(e.values) - 1:
                return v
            # keep pure boolean formulas unforked when every operand is a plain comparison
            if isinstance(v, SBool) and all(_effect_free(x) for x in e.values[k + 1:]) and self._total(e.values[k + 1:]):
                rest = [self.expr(x) for x in e.values[k + 1:]]
                if all(isinstance(x, (SBool, bool)) for x in rest):
                    zs_ = [ops.zb(x) for x in [v, *rest]]
                    return SBool(z3.And(*zs_) if is_and else z3.Or(*zs_))
            if isinstance(v, SBool) and self.vc.scoped and k == len(e.values) - 2:
                # inside a comprehension paths cannot fork: evaluate the rest where it is reached, and merge
                with self.vc.under(v.z if is_and else z3.Not(v.z)):
                    try:
                        last = self.expr(e.values[-1])
                    except PyRaise as x:
                        raise Unsupported('an exception inside a comprehension') from x
                if not isinstance(last, (SBool, bool)):
                    raise Unsupported('comprehension body branches on a symbolic value')
                return SBool(z3.And(v.z, ops.zb(last)) if is_and else z3.Or(v.z, ops.zb(last)))
            t = self.i.truth(v)
            if t != is_and:
                return v if not isinstance(v, SBool) else t
        return v

    def _total(self, nodes):
        # only names and integer comparisons between names/constants cannot raise
        for n in nodes:
            for sub in ast.walk(n):
                if not isinstance(sub, (ast.Compare, ast.Name, ast.Constant, ast.Load, ast.Lt, ast.LtE, ast.Gt, ast.GtE,
                                        ast.Eq, ast.NotEq, ast.UnaryOp, ast.Not, ast.USub, ast.BinOp, ast.Add, ast.Sub)):
                    return False
                if isinstance(sub, ast.Name) and not isinstance(self.scope.lookup(sub.id), (int, SInt, SBool)):
                    return False
        return True

    def e_UnaryOp(self, e):
        v = self.expr(e.operand)
        if isinstance(e.op, ast.Not):
            t = ops.truth(self.vc, v)
            return (not t) if isinstance(t, bool) else SBool(z3.Not(t))
        return ops.unop(self.vc, type(e.op).__name__, v)

    def e_BinOp(self, e):
        left = self.expr(e.left)
        right = self.expr(e.right)
        return ops.binop(self.vc, type(e.op).__name__, left, right)

    def e_Compare(self, e):
        left = self.expr(e.left)
        result = None
        for k, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.expr(c)
            r = ops.compare(self.vc, type(op).__name__, left, right)
            left = right
            if k == len(e.ops) - 1:
                return r if result is None else ops.and_(result, r)
            result = r if result is None else ops.and_(result, r)
            if isinstance(result, bool) and not result:
                return False
        return result

    def e_IfExp(self, e):
        test = self.expr(e.test)
        if self.vc.scoped and isinstance(test, SBool) and _effect_free(e.body) and _effect_free(e.orelse):
            return ops.ite(self.vc, test.z, self.expr(e.body), self.expr(e.orelse))
        return self.expr(e.body if self.i.truth(test) else e.orelse)

    def e_NamedExpr(self, e):
        v = self.expr(e.value)
        self.scope.store(e.target.id, v)
        return v

    def e_Lambda(self, e):
        return self.closure(e, f'{self.qual}.<lambda>')

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.expr(v.value)
                if v.format_spec is None and v.conversion == -1 and (isinstance(x, (str, SStr)) or (isinstance(x, Model) and hasattr(x, 'radd'))):
                    parts.append(x)
                elif 'format' in self.i.models and isinstance(x, SInt):
                    parts.append(self.i.models['format'](self.vc, x, self.expr(v.format_spec) if v.format_spec else ''))
                elif is_plain(x) and not isinstance(x, (list, dict)):
                    spec = self.expr(v.format_spec) if v.format_spec else ''
                    x = to_native(x)
                    x = {-1: lambda y: y, 115: str, 114: repr, 97: ascii}[v.conversion](x)
                    parts.append(format(x, spec))
                elif isinstance(x, SInt) and v.format_spec is None:
                    parts.append(ops.int_to_str(self.vc, x))
                else:
                    parts.append(self.vc.str('fstr'))
        r = ''
        for p in parts:
            r = ops.binop(self.vc, 'Add', r, p) if (r != '' if isinstance(r, str) else True) else p
        return r

    def e_FormattedValue(self, e):
        return self.vc.str('fmt')

    def e_Subscript(self, e):
        obj = self.expr(e.value)
        if isinstance(e.slice, ast.Slice):
            return ops.getslice(self.vc, obj, *[self.expr(x) if x else None for x in (e.slice.lower, e.slice.upper, e.slice.step)])
        if isinstance(obj, type) or (not is_sym(obj) and hasattr(obj, '__class_getitem__') and isinstance(obj, type)):
            return obj
        key = self.expr(e.slice)
        return ops.getitem(self.vc, obj, key)

    def e_Starred(self, e):
        raise Unsupported('starred')

    def e_Call(self, e):
        # super() needs the frame
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not self.scope.has('super'):
            if e.args:
                return SuperProxy(self.expr(e.args[1]), self.expr(e.args[0]))
            return SuperProxy(self.scope.lookup(self.node.args.args[0].arg), self.scope.lookup('__class__'))
        f = self.expr(e.func)
        args = []
        if f is zip and len(e.args) == 1 and isinstance(e.args[0], ast.Starred) and not e.keywords:
            return ops.unzip(self.vc, self, self.expr(e.args[0].value))
        for a in e.args:
            if isinstance(a, ast.Starred):
                x = self.expr(a.value)
                if hasattr(x, 'spread'):  # a model of any number of arguments
                    args.append(x.spread())
                else:
                    args.extend(self.iterate_concrete(x))
            else:
                args.append(self.expr(a))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.expr(k.value)
                if not isinstance(d, SDict) or d.items is None:
                    raise Unsupported('** of a symbolic dict')
                for kk, vv in d.items:
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.expr(k.value)
        where = self.vc.where
        r = self.i.call(f, args, kwargs)
        self.vc.where = where
        return r

    # comprehensions: evaluated eagerly in a nested scope
    def e_ListComp(self, e):
        r = self.comp(e, lambda fr: fr.expr(e.elt))
        return r if isinstance(r, SList) else self.vc.new(SList(items=r))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e):
        r = self.vc.new(SSet(items=[]))
        out = self.comp(e, lambda fr: fr.expr(e.elt))
        if isinstance(out, SList):
            raise Unsupported('symbolic set comprehension')
        for x in out:
            ops.set_add(self.vc, r, x)
        return r

    def e_DictComp(self, e):
        r = self.vc.new(SDict(items=[]))
        out = self.comp(e, lambda fr: (fr.expr(e.key), fr.expr(e.value)))
        if isinstance(out, SList):
            return ops.dict_of_pairs(self.vc, out)
        for k, v in out:
            ops.setitem(self.vc, r, k, v)
        return r

    def comp(self, e, make):
        frame = Frame.__new__(Frame)
        frame.i, frame.vc, frame.qual, frame.node = self.i, self.vc, self.qual, self.node
        frame.generator, frame.yielded, frame.loop_no = False, [], {}
        frame.scope = Scope(self.scope, self.scope.globals)
        gens = e.generators
        first = ops.to_sequence(self.vc, self.expr(gens[0].iter))
        if isinstance(first, SList) and len(gens) == 1:
            r = self.symbolic_comp(frame, gens[0], first, make)
            if r is not None:
                return r
        out = []

        def rec(k):
            if k == len(gens):
                out.append(make(frame))
                return
            g = gens[k]
            seq = first if k == 0 else ops.to_sequence(self.vc, frame.expr(g.iter))
            if isinstance(seq, SList):
                seq = frame.iterate_concrete(seq)
            for x in seq:
                frame.assign(g.target, x)
                if all(self.i.truth(frame.expr(c)) for c in g.ifs):
                    rec(k + 1)

        rec(0)
        return out

    def symbolic_comp(self, frame, g, seq, make):
        """Comprehension over a list of symbolic length: sound axiomatisation, no unrolling."""
        vc = self.vc

        def at(i, fn):
            saved = dict(frame.scope.vars)
            i = i if z3.is_expr(i) else z3.IntVal(i)
            try:
                with vc.under(z3.And(i >= 0, i < seq.length)):
                    frame.assign(g.target, seq.elem(i))
                    return fn(frame)
            finally:
                frame.scope.vars = saved

        probe = z3.Int(vc.name('comp_probe'))
        floor = vc.serial
        # the body is evaluated now, at an arbitrary index: later changes of the variables it reads do not matter
        value = at(probe, make)

        def element(i):
            return subst_value(value, probe, i, floor)

        if not g.ifs:
            r = SList(seq.length, element, True, 'comp')
            return vc.new(r)
        cond = z3.And(*[ops.zb(ops.truth(vc, at(probe, lambda fr, c=c: fr.expr(c)))) for c in g.ifs])

        def pred(i):
            return z3.substitute(cond, (probe, i))

        n = vc.skolem('comp_len')
        sel = vc.func('comp_sel', z3.IntSort(), z3.IntSort())
        inv = vc.func('comp_inv', z3.IntSort(), z3.IntSort())
        j = z3.Int('j_comp')
        vc.assume(z3.And(n >= 0, n <= seq.length))
        vc.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(sel(j) >= 0, sel(j) < seq.length, pred(sel(j)), inv(sel(j)) == j)), patterns=[sel(j)]))
        vc.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < seq.length, pred(j)), z3.And(inv(j) >= 0, inv(j) < n, sel(inv(j)) == j)),
                             patterns=[inv(j)] + _triggers(cond, probe, j)))
        j2 = z3.Int('j2_comp')
        vc.assume(z3.ForAll([j, j2], z3.Implies(z3.And(j >= 0, j < j2, j2 < n), sel(j) < sel(j2)), patterns=[z3.MultiPattern(sel(j), sel(j2))]))
        r = SList(n, lambda i: element(sel(i)), True, 'filter')
        r.sel, r.sel_inv = sel, inv
        return vc.new(r)


def _triggers(term, var, new):
    """applications of uninterpreted functions to exactly `var` inside `term`, with `new` in its place"""
    out, seen, todo = {}, set(), [term]
    while todo:
        t = todo.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.num_args() == 1 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.arg(0).eq(var):
            out[t.decl().name()] = t.decl()(new)
        todo += t.children()
    return list(out.values())


def subst_value(v, old, new, floor=None):
    new = new if z3.is_expr(new) else z3.IntVal(new)

    def f(e):
        return z3.substitute(e, (old, new))

    return map_terms(v, f, floor)


def map_terms(v, f, floor=None):
    """v with f applied to its terms.  Objects made after serial number `floor` are copied; the copies are frozen."""
    if isinstance(v, Sym):
        return type(v)(f(v.z))
    if isinstance(v, tuple):
        return tuple(map_terms(x, f, floor) for x in v)
    if isinstance(v, SBytes):
        return SBytes(f(v.length), lambda k: f(v.at(k)))
    if isinstance(v, Host):
        return v
    if isinstance(v, Model) and hasattr(v, 'map_terms'):
        return v.map_terms(f)
    fresh = floor is not None and (getattr(v, 'serial', None) or 0) > floor
    if isinstance(v, Obj) and (fresh or v.frozen):
        r = Obj(v.cls, {k: map_terms(x, f, floor) for k, x in v.fields.items()}, v.tag)
        r.frozen = True
        return r
    if isinstance(v, SList) and v.items is not None and (fresh or v.serial == -1):
        r = SList(items=[map_terms(x, f, floor) for x in v.items], mutable=v.mutable)
        r.serial = -1
        return r
    if isinstance(v, Obj) or isinstance(v, (SList, SDict, SSet, Closure, Bound)):
        raise Unsupported('comprehension makes mutable objects')
    return v


class _Live:
    def __init__(self, sl):
        self.sl = sl

    def __iter__(self):
        k = 0
        while self.sl.items is not None and k < len(self.sl.items):
            yield self.sl.items[k]
            k += 1
        if self.sl.items is None:
            raise Unsupported('list became symbolic while iterated')


def _snapshot(scope):
    s = Scope(scope.parent, scope.globals)
    s.vars = {k: (v.copy(v.mutable) if isinstance(v, SList) else v) for k, v in scope.vars.items()}
    return s


def _effect_free(n):
    return not any(isinstance(x, (ast.Call, ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(n))


Interp.map_terms = staticmethod(map_terms)
