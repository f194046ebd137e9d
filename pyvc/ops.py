"""Semantics of Python operators, builtins and container methods on symbolic values."""
import bisect
import builtins
import contextlib
import io
import logging
import os
import posixpath
import stat as stat_module
import threading
import typing

import z3

from .values import *  # noqa: F403
from .values import (Bound, Closure, Host, Model, Obj, PyRaise, SBool, SBytes, SDict, SInt, SList, SReal, SSet, SStr, SChar, SVal,
                     Sym, Unsupported, Val, from_native, is_plain, is_sym, sbytes_of, to_native, zb, zi, zs)

I0, I1 = z3.IntVal(0), z3.IntVal(1)


def simp_int(z):
    z = z3.simplify(z)
    return z.as_long() if z3.is_int_value(z) else None


def mk_int(z):
    v = simp_int(z)
    return v if v is not None else SInt(z)


def mk_bool(z):
    z = z3.simplify(z)
    return True if z3.is_true(z) else False if z3.is_false(z) else SBool(z)


def mk_str(z):
    z = z3.simplify(z)
    if z3.is_string_value(z):
        return unescape(z.as_string())
    return SStr(z)


def unescape(s):
    # z3 prints non-ASCII as \u{...}
    import re

    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def is_int(x):
    return isinstance(x, (int, SInt)) and not isinstance(x, SBool)


def is_str(x):
    return isinstance(x, (str, SStr))


def is_bytes(x):
    return isinstance(x, (bytes, bytearray, SBytes))


def truth(vc, x):
    """-> host bool or z3 Bool"""
    if isinstance(x, SBool):
        return x.z
    if isinstance(x, SInt):
        return x.z != 0
    if isinstance(x, SReal):
        return x.z != 0
    if isinstance(x, SStr):
        return z3.Length(x.z) != 0
    if isinstance(x, SBytes):
        v = simp_int(x.length)
        return v != 0 if v is not None else x.length != 0
    if isinstance(x, SList):
        return len(x.items) != 0 if x.items is not None else x.length != 0
    if isinstance(x, SDict):
        if x.items is not None:
            return len(x.items) != 0
        if x.size is None:
            raise Unsupported('truth of a dict of unknown size')
        return zi(x.size) != 0
    if isinstance(x, SSet):
        if x.items is not None:
            return len(x.items) != 0
        raise Unsupported('truth of a symbolic set')
    if isinstance(x, SVal):
        f = z3.Function('val_truth', Val, z3.BoolSort())
        return f(x.z)
    if isinstance(x, Obj):
        i = vc.interp
        for name in ('__bool__', '__len__'):
            m = i.find_method(x, name) if x.cls else None
            if m is not None and not isinstance(getattr(m, 'fn', None), type(object.__init__)):
                r = i.call(m, [])
                return truth(vc, r)
        return True
    if isinstance(x, Model):
        if hasattr(x, 'truth'):
            return x.truth(vc)
        return True
    if isinstance(x, (Bound, Host, Closure)):
        return True
    return bool(x)


def not_(x):
    return (not x) if isinstance(x, bool) else SBool(z3.Not(zb(x)))


def and_(a, b):
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    return mk_bool(z3.And(zb(a), zb(b)))


def eq(vc, a, b):
    """-> bool or SBool: Python =="""
    if a is b:
        return True
    if a is None or b is None:
        if isinstance(a, SVal) or isinstance(b, SVal):
            v = a if isinstance(a, SVal) else b
            return mk_bool(v.z == none_val())
        return False
    if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
        if isinstance(a, (int, SInt, SBool)) and isinstance(b, (int, SInt, SBool)):
            if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                return mk_bool(zb(a) == zb(b))
            return mk_bool(zi(a) == zi(b))
        if isinstance(a, SReal) or isinstance(b, SReal):
            return mk_bool(to_real(a) == to_real(b))
        if isinstance(a, (SVal, float)) or isinstance(b, (SVal, float)):
            raise Unsupported('== of int and opaque')
        return False
    if isinstance(a, SReal) or isinstance(b, SReal):
        return mk_bool(to_real(a) == to_real(b))
    if isinstance(a, SStr) or isinstance(b, SStr):
        if is_str(a) and is_str(b):
            return mk_bool(zs(a) == zs(b))
        if isinstance(a, SVal) or isinstance(b, SVal):
            raise Unsupported('== of str and opaque')
        return False
    if isinstance(a, SVal) and isinstance(b, SVal):
        return mk_bool(a.z == b.z)
    if isinstance(a, SBytes) or isinstance(b, SBytes):
        if is_bytes(a) and is_bytes(b):
            return bytes_eq(vc, sbytes_of(a), sbytes_of(b))
        return False
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and type(a) is type(b):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = and_(r, eq(vc, x, y))
            if r is False:
                return False
        return r
    if isinstance(a, SList) and isinstance(b, SList):
        if a.mutable != b.mutable:
            return False
        return list_eq(vc, a, b)
    if isinstance(a, SList) and isinstance(b, tuple) and not a.mutable:
        return list_eq(vc, a, SList(items=list(b)))
    if isinstance(b, SList) and isinstance(a, tuple) and not b.mutable:
        return list_eq(vc, SList(items=list(a)), b)
    if isinstance(a, Obj) or isinstance(b, Obj):
        o = a if isinstance(a, Obj) else b
        import dataclasses

        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls and a.cls and dataclasses.is_dataclass(a.cls):
            r = True
            for f in dataclasses.fields(a.cls):
                r = and_(r, eq(vc, a.fields[f.name], b.fields[f.name]))
            return r
        m = vc.interp.find_method(o, '__eq__') if o.cls else None
        if m is not None and getattr(m, 'fn', None) is not object.__eq__ and callable(getattr(m, 'fn', None)):
            import types

            if isinstance(m.fn, types.FunctionType):
                return vc.interp.call(m, [b if o is a else a])
        return False
    if isinstance(a, Model) or isinstance(b, Model):
        o, p = (a, b) if isinstance(a, Model) else (b, a)
        if hasattr(o, 'eq'):
            return o.eq(vc, p)
        return False
    if isinstance(a, SDict) and isinstance(b, SDict) and a.items is not None and b.items is not None:
        if is_plain(a) and is_plain(b):
            return to_native(a) == to_native(b)
        if len(a.items) != len(b.items):
            return False
        r = True
        for k, v in a.items:
            e = dict_find(vc, b, k)
            if e is None:
                return False
            r = and_(r, eq(vc, v, e[1]))
        return r
    if is_plain(a) and is_plain(b):
        return to_native(a) == to_native(b)
    if is_sym(a) or is_sym(b):
        raise Unsupported(f'== of {type(a).__name__} and {type(b).__name__}')
    return a == b


def none_val():
    return z3.Const('None_val', Val)


def to_real(x):
    if isinstance(x, SReal):
        return x.z
    if isinstance(x, (int, float)):
        return z3.RealVal(repr(x) if isinstance(x, float) else x)
    return z3.ToReal(zi(x))


def bytes_eq(vc, a, b):
    na, nb = simp_int(a.length), simp_int(b.length)
    if na is not None and nb is not None:
        if na != nb:
            return False
        if na <= 64:
            return mk_bool(z3.And([a.at(z3.IntVal(i)) == b.at(z3.IntVal(i)) for i in range(na)]) if na else z3.BoolVal(True))
    n = na if na is not None and na <= 64 else nb if nb is not None and nb <= 64 else None
    if n is not None:
        return mk_bool(z3.And(a.length == b.length, *[a.at(z3.IntVal(i)) == b.at(z3.IntVal(i)) for i in range(n)]))
    i = z3.Int(vc.name('beq'))
    return SBool(z3.And(a.length == b.length, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.length), a.at(i) == b.at(i)))))


def list_eq(vc, a, b):
    if a.items is not None and b.items is not None:
        if len(a.items) != len(b.items):
            return False
        r = True
        for x, y in zip(a.items, b.items):
            r = and_(r, eq(vc, x, y))
        return r
    n = len(a.items) if a.items is not None else len(b.items) if b.items is not None else None
    if n is not None:
        c = [a.length == b.length]
        for i in range(n):
            c.append(zb(eq(vc, a.elem(z3.IntVal(i)), b.elem(z3.IntVal(i)))))
        return mk_bool(z3.And(*c))
    i = z3.Int(vc.name('leq'))
    return SBool(z3.And(a.length == b.length, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.length), zb(eq(vc, a.elem(i), b.elem(i)))))))


def identical(vc, a, b):
    if isinstance(a, SVal) or isinstance(b, SVal):
        if isinstance(a, SVal) and isinstance(b, SVal):
            return mk_bool(a.z == b.z)
        if a is None or b is None:
            v = a if isinstance(a, SVal) else b
            return mk_bool(v.z == none_val())
        raise Unsupported('is on an opaque value')
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return mk_bool(zb(a) == zb(b))
    if a is None or b is None:
        return a is b
    if is_sym(a) or is_sym(b):
        if isinstance(a, (SList, SDict, SSet)) or isinstance(b, (SList, SDict, SSet)):
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            return False
        if isinstance(a, SInt) and isinstance(b, (SInt, int)) or isinstance(b, SInt) and isinstance(a, int):
            return eq(vc, a, b)  # CPython identity of ints is not specified; equality over-approximates "is" used as ==
        raise Unsupported(f'is on {type(a).__name__}, {type(b).__name__}')
    return a is b


def compare(vc, op, a, b):
    if op == 'Eq':
        return eq(vc, a, b)
    if op == 'NotEq':
        return not_(eq(vc, a, b))
    if op == 'Is':
        return identical(vc, a, b)
    if op == 'IsNot':
        return not_(identical(vc, a, b))
    if op == 'In':
        return contains(vc, b, a)
    if op == 'NotIn':
        return not_(contains(vc, b, a))
    if is_plain(a) and is_plain(b):
        x, y = to_native(a), to_native(b)
        try:
            return {'Lt': lambda: x < y, 'LtE': lambda: x <= y, 'Gt': lambda: x > y, 'GtE': lambda: x >= y}[op]()
        except TypeError as e:
            raise PyRaise(TypeError, e.args) from e
    num = (int, SInt, SBool, SReal, float)
    if isinstance(a, num) and isinstance(b, num):
        if isinstance(a, (SReal, float)) or isinstance(b, (SReal, float)):
            x, y = to_real(a), to_real(b)
        else:
            x, y = zi(a), zi(b)
        return mk_bool({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op])
    if is_str(a) and is_str(b):
        x, y = zs(a), zs(b)
        return mk_bool({'Lt': x < y, 'LtE': x <= y, 'Gt': y < x, 'GtE': y <= x}[op])
    if a is None or b is None:
        raise PyRaise(TypeError, ('ordering with None',))
    if isinstance(a, (tuple,)) and isinstance(b, tuple) and len(a) == len(b) and op in ('Lt', 'LtE', 'Gt', 'GtE'):
        strict = z3.BoolVal(op in ('LtE', 'GtE'))
        for x, y in reversed(list(zip(a, b))):
            lt = zb(compare(vc, 'Lt' if op in ('Lt', 'LtE') else 'Gt', x, y))
            strict = z3.Or(lt, z3.And(zb(eq(vc, x, y)), strict))
        return mk_bool(strict)
    raise Unsupported(f'{op} of {type(a).__name__} and {type(b).__name__}')


def contains(vc, c, x):
    if isinstance(c, SStr) or (isinstance(c, str) and isinstance(x, SStr)):
        return mk_bool(z3.Contains(zs(c), zs(x)))
    if isinstance(c, SList):
        if c.items is not None:
            return any_eq(vc, c.items, x)
        i = z3.FreshConst(z3.IntSort(), 'in_i')
        return SBool(z3.Exists([i], z3.And(i >= 0, i < c.length, zb(eq(vc, c.elem(i), x)))))
    if isinstance(c, (tuple, list)):
        return any_eq(vc, c, x)
    if isinstance(c, SDict):
        if c.items is not None:
            return any_eq(vc, [k for k, _v in c.items], x)
        return mk_bool(c.has(c.key(x)))
    if isinstance(c, SSet):
        if c.items is not None:
            return any_eq(vc, c.items, x)
        return mk_bool(c.has(c.key(x)))
    if isinstance(c, Model):
        return c.contains(vc, x)
    if isinstance(c, Obj):
        m = vc.interp.find_method(c, '__contains__')
        if m is not None:
            r = truth(vc, vc.interp.call(m, [x]))
            return r if isinstance(r, bool) else SBool(r)
    if is_plain(c) and is_plain(x):
        try:
            return to_native(x) in to_native(c)
        except TypeError as e:
            raise PyRaise(TypeError, e.args) from e
    if hasattr(c, '__iter__') and isinstance(x, Sym):
        return any_eq(vc, [from_native(y) for y in c], x)
    raise Unsupported(f'in {type(c).__name__}')


def any_eq(vc, items, x):
    alts = []
    for y in items:
        e = eq(vc, y, x)
        if e is True:
            return True
        if e is not False:
            alts.append(zb(e))
    return mk_bool(z3.Or(*alts)) if alts else False


def binop(vc, op, a, b):
    if op == 'Add' and isinstance(b, Model) and hasattr(b, 'radd'):
        return b.radd(vc, a)
    if op == 'Add' and isinstance(a, Model) and hasattr(a, 'add'):
        return a.add(vc, b)
    if is_plain(a) and is_plain(b) and not isinstance(a, SList) and not isinstance(b, SList):
        return native_binop(op, to_native(a), to_native(b))
    num = (int, SInt, SBool, SReal, float)
    if isinstance(a, num) and isinstance(b, num):
        if isinstance(a, (SReal, float)) or isinstance(b, (SReal, float)):
            x, y = to_real(a), to_real(b)
            if op in ('Add', 'Sub', 'Mult'):
                return SReal({'Add': x + y, 'Sub': x - y, 'Mult': x * y}[op])
            if op == 'Div':
                if vc.branch(y == 0):
                    raise PyRaise(ZeroDivisionError, ())
                return SReal(x / y)
            raise Unsupported(f'real {op}')
        x, y = zi(a), zi(b)
        if op == 'Add':
            return mk_int(x + y)
        if op == 'Sub':
            return mk_int(x - y)
        if op == 'Mult':
            return mk_int(x * y)
        if op in ('FloorDiv', 'Mod'):
            if vc.branch(y == 0):
                raise PyRaise(ZeroDivisionError, ())
            # z3 div/mod are Euclidean; Python floors
            if isinstance(b, int) and b > 0:
                return mk_int(x / y) if op == 'FloorDiv' else mk_int(x % y)
            if vc.branch(y > 0):
                return mk_int(x / y) if op == 'FloorDiv' else mk_int(x % y)
            return mk_int((-x) / (-y)) if op == 'FloorDiv' else mk_int(-((-x) % (-y)))
        if op == 'Div':
            if vc.branch(y == 0):
                raise PyRaise(ZeroDivisionError, ())
            return SReal(z3.ToReal(x) / z3.ToReal(y))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                p, q = zb(a), zb(b)
                return mk_bool({'BitAnd': z3.And(p, q), 'BitOr': z3.Or(p, q), 'BitXor': z3.Xor(p, q)}[op])
            return bitop(vc, op, a, b)
        if op in ('LShift', 'RShift') and isinstance(b, int):
            return mk_int(x * (1 << b)) if op == 'LShift' else mk_int(x / (1 << b))
        if op == 'Pow' and isinstance(b, int) and 0 <= b <= 4:
            r = z3.IntVal(1)
            for _ in range(b):
                r = r * x
            return mk_int(r)
        if op == 'Pow' and isinstance(a, int) and a == 2:
            f = z3.Function('pow2', z3.IntSort(), z3.IntSort())
            return SInt(f(y))
        raise Unsupported(f'int {op}')
    if op == 'Add':
        if is_str(a) and is_str(b):
            return mk_str(z3.Concat(zs(a), zs(b)))
        if is_bytes(a) and is_bytes(b):
            return bytes_concat(sbytes_of(a), sbytes_of(b))
        if isinstance(a, SList) and isinstance(b, SList) and a.mutable == b.mutable:
            r = vc.new(a.copy(a.mutable))
            list_extend(vc, r, b, log=False)
            return r
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, tuple) and isinstance(b, SList) and not b.mutable or isinstance(b, tuple) and isinstance(a, SList) and not a.mutable:
            x = SList(items=list(a), mutable=False) if isinstance(a, tuple) else a
            y = SList(items=list(b), mutable=False) if isinstance(b, tuple) else b
            r = vc.new(x.copy(False))
            list_extend(vc, r, y, log=False)
            return r
    if op == 'Mult':
        if isinstance(b, (bytes, SBytes)):
            a, b = b, a
        if isinstance(a, (bytes, SBytes)) and is_int(b):
            sa = sbytes_of(a)
            n = simp_int(sa.length)
            m = zi(b)
            m = z3.If(m > 0, m, I0)
            if n == 1:
                return SBytes(m, lambda i: sa.at(I0))
            if n is not None:
                return SBytes(m * n, lambda i: sa.at(i % n))
        if isinstance(a, SList) and a.items is not None and is_plain(b):
            return vc.new(SList(items=a.items * b, mutable=a.mutable))
        if isinstance(a, SList) and a.items is not None and len(a.items) == 1 and is_int(b):
            v = a.items[0]
            return vc.new(SList(z3.If(zi(b) > 0, zi(b), I0), lambda i: v, a.mutable))
    if op == 'Mod' and is_str(a):
        return vc.str('fmt')
    if op == 'BitOr' and isinstance(a, SDict) and isinstance(b, SDict):
        r = dict_copy(vc, a)
        dict_update(vc, r, b)
        return r
    if op in ('BitOr', 'BitAnd', 'Sub') and isinstance(a, SSet) and isinstance(b, SSet):
        return set_op(vc, op, a, b)
    if a is None or b is None:
        raise PyRaise(TypeError, (f'{op} with None',))
    if (is_str(a) and (is_bytes(b) or is_int(b))) or (is_str(b) and (is_bytes(a) or is_int(a))):
        raise PyRaise(TypeError, (f'{op} of mixed types',))
    raise Unsupported(f'{op} of {type(a).__name__} and {type(b).__name__}')


def native_binop(op, a, b):
    import operator as o

    f = {'Add': o.add, 'Sub': o.sub, 'Mult': o.mul, 'FloorDiv': o.floordiv, 'Mod': o.mod, 'Div': o.truediv, 'Pow': o.pow,
         'BitAnd': o.and_, 'BitOr': o.or_, 'BitXor': o.xor, 'LShift': o.lshift, 'RShift': o.rshift, 'MatMult': o.matmul}[op]
    try:
        return from_native(f(a, b))
    except Exception as e:  # pylint: disable=broad-except
        raise PyRaise(type(e), e.args) from e


def bitop(vc, op, a, b):
    """Bit operations of a symbolic non-negative int: exact for contiguous masks, else uninterpreted with bounds."""
    if isinstance(a, int):
        a, b = b, a
    x = zi(a)
    if isinstance(b, int) and not isinstance(b, bool) and b >= 0 and op == 'BitAnd':
        m = b
        if m == 0:
            return 0
        low = (m & -m).bit_length() - 1
        top = m.bit_length()
        if m == (1 << top) - (1 << low):  # contiguous mask
            return mk_int(((x / (1 << low)) % (1 << (top - low))) * (1 << low))
        # sum over bits, exact for all ints (two's complement semantics of Python)
        r = I0
        for k in range(top):
            if m >> k & 1:
                r = r + ((x / (1 << k)) % 2) * (1 << k)
        return mk_int(r)
    if isinstance(b, int) and b >= 0 and op == 'BitOr':
        r = x
        for k in range(b.bit_length()):
            if b >> k & 1:
                r = r + (1 - (x / (1 << k)) % 2) * (1 << k)
        return mk_int(r)
    if op in ('BitAnd', 'BitOr'):
        if z3.eq(z3.simplify(x), z3.simplify(zi(b))):
            return a  # idempotent
        f = z3.Function('bit_' + op, z3.IntSort(), z3.IntSort(), z3.IntSort())
        return SInt(f(x, zi(b)))
    raise Unsupported(op)


def unop(vc, op, v):
    if is_plain(v):
        return {'USub': lambda: -v, 'UAdd': lambda: +v, 'Invert': lambda: ~v}[op]()
    if op == 'USub':
        if isinstance(v, SReal):
            return SReal(-v.z)
        return mk_int(-zi(v))
    if op == 'Invert':
        return mk_int(-zi(v) - 1)
    raise Unsupported(op)


def bytes_concat(a, b):
    la = a.length
    n = simp_int(la)
    if n == 0:
        return b
    if simp_int(b.length) == 0:
        return a
    return SBytes(z3.simplify(la + b.length), lambda i: z3.If(i < la, a.at(i), b.at(i - la)))


def concat_parts(z):
    if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [p for i in range(z.num_args()) for p in concat_parts(z.arg(i))]
    return [z]


def after_prefix(z, n):
    """what remains of a concatenation without its first n characters if that is where one of its parts begins"""
    parts, at = concat_parts(z), I0
    for k in range(len(parts) + 1):
        if simp_int(z3.simplify(n - at)) == 0:
            rest = parts[k:]
            return z3.StringVal('') if not rest else rest[0] if len(rest) == 1 else z3.Concat(*rest)
        if k < len(parts):
            at = at + z3.Length(parts[k])
    return None


def norm_slice(vc, n, lo, hi):
    """Python slice bounds with step 1, as z3 ints within [0, n]."""

    def clamp(x, default):
        if x is None:
            return default
        z = zi(x)
        v = simp_int(z)
        if v is not None:
            if v == 0:
                return I0
            if v > 0:
                return z3.If(n < v, n, z3.IntVal(v))
            return z3.If(n + v < 0, I0, n + v)
        z1 = z3.If(z < 0, z + n, z)
        return z3.If(z1 < 0, I0, z3.If(z1 > n, n, z1))

    a, b = clamp(lo, I0), clamp(hi, n)
    return z3.simplify(a), z3.simplify(b)


def getslice(vc, o, lo, hi, step):
    if is_plain(o) and is_plain(lo) and is_plain(hi) and is_plain(step):
        r = to_native(o)[slice(lo, hi, step)]
        r = from_native(r)
        return vc.new(r) if isinstance(r, SList) else r
    if step is not None and step != 1:
        if isinstance(o, Model) and hasattr(o, 'getslice'):
            return o.getslice(vc, lo, hi, step)
        if step == -1 and lo is None and hi is None and isinstance(o, SList):
            return reverse_list(vc, o)
        raise Unsupported('slice step')
    if isinstance(o, (bytes, SBytes)):
        s = sbytes_of(o)
        a, b = norm_slice(vc, s.length, lo, hi)
        ln = z3.simplify(z3.If(b > a, b - a, I0))
        if simp_int(a) == 0:
            return SBytes(ln, s.at)
        return SBytes(ln, lambda i: s.at(i + a))
    if is_str(o):
        z = zs(o)
        if hi is None and lo is not None:
            rest = after_prefix(z, zi(lo))
            if rest is not None:
                return mk_str(rest)
        n = z3.Length(z)
        a, b = norm_slice(vc, n, lo, hi)
        return mk_str(z3.SubString(z, a, z3.If(b > a, b - a, I0)))
    if isinstance(o, (SList, tuple)):
        if isinstance(o, tuple):
            o = SList(items=list(o), mutable=False)
        if o.items is not None and is_plain(lo) and is_plain(hi):
            r = o.items[slice(lo, hi)]
            return tuple(r) if not o.mutable else vc.new(SList(items=r))
        if o.items is not None and not o.mutable:
            raise Unsupported('symbolic slice of a tuple')
        base = o.copy(o.mutable)
        a, b = norm_slice(vc, base.length, lo, hi)
        ln = z3.simplify(z3.If(b > a, b - a, I0))
        v = simp_int(ln)
        if v is not None and v <= 8:
            r = vc.new(SList(items=[base.elem(z3.simplify(a + k)) for k in range(v)], mutable=o.mutable))
            r.slice_of = (o, a, ln)
            return r
        r = vc.new(SList(ln, lambda i: base.elem(z3.simplify(i + a)), o.mutable))
        r.slice_of = (o, a, ln)
        return r
    if isinstance(o, Model):
        return o.getslice(vc, lo, hi)
    if o is None:
        raise PyRaise(TypeError, ("'NoneType' object is not subscriptable",))
    raise Unsupported(f'slice of {type(o).__name__}')


def reverse_list(vc, o):
    if o.items is not None:
        return vc.new(SList(items=o.items[::-1], mutable=o.mutable))
    base = o.copy()
    r = vc.new(SList(base.length, lambda i: base.elem(base.length - 1 - i), o.mutable))
    r.of = o
    return r


def setslice(vc, o, lo, hi, step, v):
    if isinstance(o, Model):
        return o.setslice(vc, lo, hi, v)
    if isinstance(o, SList) and o.items is not None and is_plain(lo) and is_plain(hi) and step is None:
        items = to_sequence(vc, v)
        if isinstance(items, list):
            mut(vc, o)
            o.items[slice(lo, hi)] = items
            return None
    raise Unsupported('slice assignment')


def index_of(vc, n, key, exc=IndexError):
    """-> z3 index in range or raises"""
    z = zi(key)
    v = simp_int(z)
    if v is not None and v < 0:
        if vc.branch(n + v >= 0):
            return z3.simplify(n + v)
        raise PyRaise(exc, ('index out of range',))
    if vc.branch(z3.And(z >= 0, z < n)):
        return z
    if vc.branch(z3.And(z < 0, z + n >= 0)):
        return z3.simplify(z + n)
    raise PyRaise(exc, ('index out of range',))


def getitem(vc, o, key):
    if isinstance(o, Model):
        return o.getitem(vc, key)
    if isinstance(o, SDict):
        if o.items is not None:
            e = dict_find(vc, o, key)
            if e is None:
                if o.default is not None:
                    v = vc.interp.call(o.default)
                    setitem(vc, o, key, v)
                    return v
                raise PyRaise(KeyError, (key,))
            return e[1]
        k = o.key(key)
        if vc.branch(o.has(k)):
            return o.get(k)
        raise PyRaise(KeyError, (key,))
    if isinstance(o, SList):
        if not isinstance(key, (int, SInt, SBool)):
            raise PyRaise(TypeError, ('list indices must be integers',))
        if o.items is not None and isinstance(key, int):
            try:
                return o.items[key]
            except IndexError as e:
                raise PyRaise(IndexError, e.args) from e
        i = index_of(vc, o.length, key)
        if o.items is not None:
            for k in range(len(o.items) - 1):
                if vc.branch(i == k):
                    return o.items[k]
            return o.items[-1]
        return o.elem(i)
    if isinstance(o, tuple):
        if isinstance(key, int):
            try:
                return o[key]
            except IndexError as e:
                raise PyRaise(IndexError, e.args) from e
        return getitem(vc, SList(items=list(o), mutable=False), key)
    if isinstance(o, SBytes) or (isinstance(o, bytes) and isinstance(key, SInt)):
        s = sbytes_of(o)
        i = index_of(vc, s.length, key)
        return SInt(s.at(i))
    if isinstance(o, SStr) or (isinstance(o, str) and isinstance(key, SInt)):
        z = zs(o)
        i = index_of(vc, z3.Length(z), key)
        return SChar(z3.SubString(z, i, I1))
    if isinstance(o, Obj):
        if o.cls is not None and hasattr(o.cls, '_fields') and isinstance(key, int):
            return o.fields[o.cls._fields[key]]
        m = vc.interp.find_method(o, '__getitem__') if o.cls else None
        if m is not None:
            return vc.interp.call(m, [key])
    if o is None:
        raise PyRaise(TypeError, ("'NoneType' object is not subscriptable",))
    if is_plain(o) and is_plain(key):
        try:
            return from_native(o[to_native(key)])
        except Exception as e:  # pylint: disable=broad-except
            raise PyRaise(type(e), e.args) from e
    if isinstance(o, dict):
        return getitem(vc, from_native(o), key)
    raise Unsupported(f'subscript of {type(o).__name__}')


def dict_find(vc, d, key):
    """entry [k, v] or None; forks on symbolic key equality"""
    maybe = []
    for entry in d.items:
        e = eq(vc, entry[0], key)
        if e is True:
            return entry
        if e is not False:
            maybe.append((e, entry))
    for e, entry in maybe:
        if vc.branch(zb(e)):
            return entry
    return None


def mut(vc, o, what=None):
    if o.serial == -1:
        raise Unsupported('mutation of a module level container')
    vc.log_write(o, what)


def setitem(vc, o, key, v):
    if isinstance(o, Model):
        return o.setitem(vc, key, v)
    if isinstance(o, SDict):
        mut(vc, o)
        if o.items is not None:
            e = dict_find(vc, o, key)
            if e is not None:
                e[1] = v
            else:
                o.items.append([key, v])
            return None
        k0, has, get = o.key(key), o.has, o.get
        present = has(k0)
        if o.size is not None:
            o.size = mk_int(zi(o.size) + z3.If(present, I0, I1))
        o.has = lambda k: z3.Or(k == k0, has(k))
        o.get = lambda k: merge(vc, k == k0, v, get, k)
        return None
    if isinstance(o, SList):
        if not o.mutable:
            raise PyRaise(TypeError, ('tuple does not support item assignment',))
        mut(vc, o)
        if o.items is not None and isinstance(key, int):
            try:
                o.items[key] = v
            except IndexError as e:
                raise PyRaise(IndexError, e.args) from e
            return None
        i0 = index_of(vc, o.length, key)
        base = o.copy()
        o.become(base.length, lambda i: merge_elem(vc, i == i0, v, base, i))
        return None
    if isinstance(o, Obj):
        m = vc.interp.find_method(o, '__setitem__') if o.cls else None
        if m is not None:
            vc.interp.call(m, [key, v])
            return None
    raise Unsupported(f'item assignment on {type(o).__name__}')


def ite(vc, c, a, b):
    """value-level if-then-else without forking"""
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return SBool(z3.If(c, zb(a), zb(b)))
    if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
        return SInt(z3.If(c, zi(a), zi(b)))
    if is_str(a) and is_str(b):
        return SStr(z3.If(c, zs(a), zs(b)))
    if isinstance(a, SVal) and isinstance(b, SVal):
        return SVal(z3.If(c, a.z, b.z))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(vc, c, x, y) for x, y in zip(a, b))
    if is_bytes(a) and is_bytes(b):
        sa, sb = sbytes_of(a), sbytes_of(b)
        return SBytes(z3.If(c, sa.length, sb.length), lambda i: z3.If(c, sa.at(i), sb.at(i)))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls and set(a.fields) == set(b.fields):
        r = Obj(a.cls, {k: ite(vc, c, a.fields[k], b.fields[k]) for k in a.fields}, a.tag)
        r.frozen = True
        return r
    if isinstance(a, Model) and type(a) is type(b) and hasattr(a, 'ite'):
        return a.ite(vc, c, b)
    return a if vc.branch(c) else b


def merge(vc, c, v, get, k):
    c = z3.simplify(c)
    if z3.is_true(c):
        return v
    if z3.is_false(c):
        return get(k)
    return ite(vc, c, v, get(k))


def merge_elem(vc, c, v, base, i):
    c = z3.simplify(c)
    if z3.is_true(c):
        return v
    if z3.is_false(c):
        return base.elem(i)
    return ite(vc, c, v, base.elem(i))


def delitem(vc, o, key):
    if isinstance(o, Model):
        return o.delitem(vc, key)
    if isinstance(o, SDict):
        mut(vc, o)
        if o.items is not None:
            e = dict_find(vc, o, key)
            if e is None:
                raise PyRaise(KeyError, (key,))
            o.items = [x for x in o.items if x is not e]
            return None
        k0, has = o.key(key), o.has
        if not vc.branch(has(k0)):
            raise PyRaise(KeyError, (key,))
        if o.size is not None:
            o.size = mk_int(zi(o.size) - 1)
        o.has = lambda k: z3.And(k != k0, has(k))
        return None
    if isinstance(o, SList) and o.items is not None and isinstance(key, int):
        mut(vc, o)
        try:
            del o.items[key]
        except IndexError as e:
            raise PyRaise(IndexError, e.args) from e
        return None
    raise Unsupported(f'del on {type(o).__name__}')


def decimal_of(x):
    """the number of which x is the decimal representation, if it is written as such"""
    if not isinstance(x, SStr):
        return None
    z = x.z
    if z3.is_app_of(z, z3.Z3_OP_ITE):  # str(n) is If(n >= 0, IntToStr(n), "-" + IntToStr(-n))
        if not z3.is_app_of(z.arg(1), z3.Z3_OP_INT_TO_STR):
            return None
        n = z.arg(1).arg(0)
        return n if z.eq(_str(None, SInt(n)).z) else None
    return z.arg(0) if z3.is_app_of(z, z3.Z3_OP_INT_TO_STR) else None


def dict_of_pairs(vc, seq):
    """The dict made from a sequence of (key, value) pairs of symbolic length: the last value of every key."""
    probe = z3.Int(vc.name('pair_probe'))
    floor = vc.serial
    with vc.under(z3.And(probe >= 0, probe < seq.length)):
        pair = seq.elem(probe)
    if not isinstance(pair, tuple) or len(pair) != 2 or not (is_str(pair[0]) or isinstance(pair[0], SInt) or hasattr(pair[0], 'encode_key')):
        raise Unsupported('dict of a symbolic sequence of something else than pairs')
    number = decimal_of(pair[0])
    if number is not None:  # decimal numbers as keys: the numbers are the keys
        with vc.under(z3.And(probe >= 0, probe < seq.length)):
            if vc.feasible(number < 0):
                number = None

    def encode(x):
        if number is not None:
            n = decimal_of(x)
            if n is None:
                n = z3.StrToInt(zs(x))
                n = z3.If(z3.IntToStr(n) == zs(x), n, -1)
            return n
        if hasattr(pair[0], 'encode_key'):
            return pair[0].encode_key(x)
        return zs(x) if is_str(pair[0]) else zi(x)

    kz = encode(pair[0])
    sort = kz.sort()
    last = vc.func('dict_last', sort, z3.IntSort())

    def at(i):
        return z3.substitute(kz, (probe, i))

    i, s = z3.Int('i_dict'), z3.Const('s_dict', sort)
    n = seq.length
    shift = z3.simplify(at(i) - i) if kz.sort() == z3.IntSort() else None
    pats = [at(i)] if z3.is_app(at(i)) and at(i).num_args() and not at(i).eq(i) and at(i).decl().kind() == z3.Z3_OP_UNINTERPRETED else []
    if shift is not None and z3.is_int_value(shift):  # the keys are consecutive numbers
        vc.assume(z3.ForAll([i], last(i) == z3.If(z3.And(i >= shift, i < n + shift), i - shift, -1), patterns=[last(i)]))
    else:
        vc.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), last(at(i)) >= i), patterns=pats))
        vc.assume(z3.ForAll([s], z3.And(last(s) >= -1, last(s) < n, z3.Implies(last(s) >= 0, at(last(s)) == s)), patterns=[last(s)]))

    def get(k):
        return vc.interp.map_terms(pair[1], lambda e: z3.substitute(e, (probe, last(k))), floor)

    size = vc.nat('dict_len')
    vc.assume(z3.And(size.z <= n, (size.z == 0) == (n == 0)))
    d1, d2 = vc.skolem('equal_key1'), vc.skolem('equal_key2')
    vc.assume(z3.Or(size.z == n, z3.And(d1 >= 0, d1 < d2, d2 < n, at(d1) == at(d2))))
    r = SDict(encode, lambda k: last(k) >= 0, get, size)
    r.last = last
    return vc.new(r)


def dict_copy(vc, d):
    r = SDict(d.key, d.has, d.get, d.size, d.tag, d.order)
    r.items = None if d.items is None else [list(e) for e in d.items]
    r.default = d.default
    return vc.new(r)


def dict_update(vc, d, other):
    if isinstance(other, dict):
        other = from_native(other)
    if isinstance(other, SDict) and other.items is not None:
        for k, v in other.items:
            setitem(vc, d, k, v)
        return
    if isinstance(other, SDict) and d.items is not None and not d.items:
        mut(vc, d)
        d.items = None
        d.key, d.has, d.get, d.size, d.order = other.key, other.has, other.get, other.size, other.order
        return
    if isinstance(other, SDict):
        mut(vc, d)
        if d.items is not None:
            sym_of_items(vc, d, other.key)
        h1, g1, h2, g2 = d.has, d.get, other.has, other.get
        d.has = lambda k: z3.Or(h1(k), h2(k))
        d.get = lambda k: ite(vc, h2(k), g2(k), g1(k))
        d.size = None
        return
    if isinstance(other, (SList, tuple, list)):
        for pair in to_list(vc, other):
            k, v = unpack(vc, pair, 2)
            setitem(vc, d, k, v)
        return
    raise Unsupported('dict.update')


def sym_of_items(vc, d, key):
    items = d.items
    d.items = None
    d.key = key
    encoded = [(key(k), v) for k, v in items]

    def get(k):
        if not encoded:
            return SVal(z3.Const('absent_val', Val))
        r = encoded[-1][1]
        for kk, v in reversed(encoded[:-1]):
            r = ite(vc, k == kk, v, r)
        return r

    d.has = lambda k: z3.Or(*[k == kk for kk, _ in encoded]) if encoded else z3.BoolVal(False)
    d.get = get
    d.size = len(encoded)


def set_add(vc, s, x):
    if s.items is not None:
        c = any_eq(vc, s.items, x)
        if not (c if isinstance(c, bool) else vc.branch(zb(c))):
            mut(vc, s)
            s.items.append(x)
        return
    mut(vc, s)
    k0, has = s.key(x), s.has
    s.has = lambda k: z3.Or(k == k0, has(k))


def set_discard(vc, s, x, strict=False):
    if s.items is not None:
        for k, y in enumerate(s.items):
            e = eq(vc, y, x)
            if e if isinstance(e, bool) else vc.branch(zb(e)):
                mut(vc, s)
                del s.items[k]
                return
        if strict:
            raise PyRaise(KeyError, (x,))
        return
    k0, has = s.key(x), s.has
    if strict and not vc.branch(has(k0)):
        raise PyRaise(KeyError, (x,))
    mut(vc, s)
    s.has = lambda k: z3.And(k != k0, has(k))


def set_op(vc, op, a, b):
    if a.items is None or b.items is None:
        raise Unsupported('set operation')
    r = vc.new(SSet(items=[]))
    if op == 'BitOr':
        for x in a.items + b.items:
            set_add(vc, r, x)
        return r
    for x in a.items:
        c = any_eq(vc, b.items, x)
        c = c if isinstance(c, bool) else vc.branch(zb(c))
        if c == (op == 'BitAnd'):
            r.items.append(x)
    return r


def list_extend(vc, o, other, log=True):
    seq = to_sequence(vc, other)
    if log:
        mut(vc, o)
    if isinstance(seq, list) and o.items is not None:
        o.items.extend(seq)
        return
    if isinstance(seq, list):
        for x in seq:
            append_sym(vc, o, x)
        return
    if o.items is not None and not o.items:
        o.become(seq.length, seq.copy().elem)
        return
    a, b = o.copy(), seq.copy()
    la = a.length
    if a.items is not None:
        o.become(z3.simplify(la + b.length), lambda i: _cat_items(vc, a, b, i))
    else:
        o.become(z3.simplify(la + b.length), lambda i: ite(vc, i < la, a.elem(i), b.elem(i - la)))


def _cat_items(vc, a, b, i):
    n = len(a.items)
    r = b.elem(i - n)
    for k in range(n - 1, -1, -1):
        r = ite(vc, i == k, a.items[k], r)
    return r


def append_sym(vc, o, x):
    base = o.copy()
    n = base.length
    o.become(z3.simplify(n + 1), lambda i: merge_elem(vc, i == n, x, base, i))


def unpack(vc, v, n):
    seq = to_sequence(vc, v)
    if isinstance(seq, list):
        if n is not None and len(seq) != n:
            raise PyRaise(ValueError, (f'unpack: expected {n}, got {len(seq)}',))
        return seq
    if n is None:
        raise Unsupported('starred unpacking of a symbolic list')
    if not vc.branch(seq.length == n):
        raise PyRaise(ValueError, (f'unpack: expected {n}',))
    return [seq.elem(z3.IntVal(k)) for k in range(n)]


def to_sequence(vc, it, allow_items=False):
    """-> host list of values, or an SList of symbolic length"""
    if isinstance(it, SList):
        return list(it.items) if it.items is not None else it
    if isinstance(it, (tuple, list)):
        return list(it)
    if isinstance(it, SDict):
        if it.items is not None:
            return [k for k, _v in it.items]
        if it.order is not None:
            return it.order
        raise Unsupported('iteration over a symbolic dict')
    if isinstance(it, SSet):
        if it.items is not None:
            return list(it.items)
        raise Unsupported('iteration over a symbolic set')
    if isinstance(it, (str, bytes, range, dict, set, frozenset)):
        return [from_native(x) for x in it]
    if isinstance(it, SBytes):
        return SList(it.length, lambda i: SInt(it.at(i)))
    if isinstance(it, SStr):
        return SList(z3.Length(it.z), lambda i: SChar(z3.SubString(it.z, i, 1)))
    if isinstance(it, Model) and hasattr(it, 'iterate'):
        r = it.iterate(vc)
        return list(r.items) if isinstance(r, SList) and r.items is not None else r
    if isinstance(it, (map, filter, zip, enumerate, reversed)) or type(it).__name__ in (
        'dict_keys', 'dict_values', 'dict_items', 'mappingproxy', 'odict_keys', 'generator', 'list_reverseiterator'):
        return [from_native(x) for x in it]
    if it is None:
        raise PyRaise(TypeError, ("'NoneType' object is not iterable",))
    if isinstance(it, type) and hasattr(it, '__members__'):
        return list(it)
    if isinstance(it, Obj) and it.cls is not None:
        m = vc.interp.find_method(it, '__iter__')
        if m is not None:
            return to_sequence(vc, vc.interp.call(m, []))
    if isinstance(it, (int, SInt)):
        raise PyRaise(TypeError, ("'int' object is not iterable",))
    raise Unsupported(f'iteration over {type(it).__name__}')


def to_list(vc, it):
    seq = to_sequence(vc, it)
    if isinstance(seq, list):
        return seq
    out = []
    k = 0
    unroll = vc.interp.unroll
    while vc.branch(seq.length > k):
        if k >= unroll:
            vc.report.bounded.append(f'{vc.where}: sequence unrolled {unroll} times')
            from .values import PathEnd

            raise PathEnd('unroll limit')
        out.append(seq.elem(z3.IntVal(k)))
        k += 1
    return out


def havoc_like(vc, v, name):
    """a fresh value of the same type"""
    if isinstance(v, (bool, SBool)):
        return vc.bool(name)
    if isinstance(v, (int, SInt)):
        return vc.int(name)
    if isinstance(v, (str, SStr)):
        return vc.str(name)
    if isinstance(v, (bytes, SBytes)):
        return vc.bytes(name)
    if isinstance(v, SVal):
        return vc.val(name)
    if isinstance(v, SReal):
        return SReal(z3.Real(vc.name(name)))
    if isinstance(v, tuple):
        return tuple(havoc_like(vc, x, name) for x in v)
    return Poison(name)


# ---- methods -----------------------------------------------------------------------------------------------------


def has_method(obj, name):
    return hasattr(type(obj), name)


DUNDER = {
    '__len__': lambda vc, o: _len(vc, o), '__getitem__': lambda vc, o, k: getitem(vc, o, k),
    '__setitem__': lambda vc, o, k, v: setitem(vc, o, k, v), '__delitem__': lambda vc, o, k: delitem(vc, o, k),
    '__contains__': lambda vc, o, k: contains(vc, o, k),
}


def method(vc, obj, name):
    table = (STR_METHODS if is_str(obj) else BYTES_METHODS if is_bytes(obj) else
             LIST_METHODS if isinstance(obj, (SList, tuple)) else DICT_METHODS if isinstance(obj, SDict) else
             SET_METHODS if isinstance(obj, SSet) else INT_METHODS if isinstance(obj, (SInt, SBool)) else {})
    if name in DUNDER and isinstance(obj, (SList, SDict, SSet, tuple)):
        f = DUNDER[name]
        return Host(lambda vc, *a: f(vc, obj, *a), name)
    if name in table:
        f = table[name]

        def call(vc, *a, **k):
            if is_plain(obj) and all(is_plain(x) for x in a) and all(is_plain(x) for x in k.values()) and isinstance(
                    obj, (str, bytes)):
                try:
                    r = from_native(getattr(obj, name)(*[to_native(x) for x in a], **{q: to_native(x) for q, x in k.items()}))
                    return vc.new(r) if isinstance(r, SList) else r
                except Exception as e:  # pylint: disable=broad-except
                    raise PyRaise(type(e), e.args) from e
            return f(vc, obj, *a, **k)

        return Host(call, name)
    if isinstance(obj, (str, bytes, tuple)) and is_plain(obj):
        real = getattr(obj, name)

        def call2(vc, *a, **k):
            if all(is_plain(x) for x in a):
                try:
                    return from_native(real(*[to_native(x) for x in a], **{q: to_native(x) for q, x in k.items()}))
                except Exception as e:  # pylint: disable=broad-except
                    raise PyRaise(type(e), e.args) from e
            raise Unsupported(f'{name} with symbolic arguments')

        return Host(call2, name)
    pytype = {SStr: str, SChar: str, SBytes: bytes, SList: list, SDict: dict, SSet: set, SInt: int, SBool: bool}.get(type(obj))
    if isinstance(obj, SList) and not obj.mutable:
        pytype = tuple
    if pytype is not None and not hasattr(pytype, name):
        raise PyRaise(AttributeError, (name,))
    if isinstance(obj, SVal):
        key = ('val_attr', name)
        if key in vc.interp.models:
            return vc.interp.models[key](vc, obj)
    raise Unsupported(f'method {name} of {type(obj).__name__}')


def _m_startswith(vc, s, p, *rest):
    if rest:
        raise Unsupported('startswith with bounds')
    if isinstance(p, tuple):
        return mk_bool(z3.Or(*[z3.PrefixOf(zs(x), zs(s)) for x in p]))
    return mk_bool(z3.PrefixOf(zs(p), zs(s)))


def _m_endswith(vc, s, p, *rest):
    if rest:
        raise Unsupported('endswith with bounds')
    if isinstance(p, tuple):
        return mk_bool(z3.Or(*[z3.SuffixOf(zs(x), zs(s)) for x in p]))
    return mk_bool(z3.SuffixOf(zs(p), zs(s)))


def all_chars(z, chars):
    """z consists only of characters of chars"""
    return z3.InRe(z, z3.Star(z3.Union(*[z3.Re(c) for c in chars]) if len(chars) > 1 else z3.Re(chars)))


def not_first(z, chars):
    return z3.And(*[z3.Not(z3.PrefixOf(z3.StringVal(c), z)) for c in chars])


def not_last(z, chars):
    return z3.And(*[z3.Not(z3.SuffixOf(z3.StringVal(c), z)) for c in chars])


def _strip(vc, s, chars, left, right):
    hook = vc.interp.models.get(('strip' if left and right else 'lstrip' if left else 'rstrip', chars if isinstance(chars, str) else None))
    if hook is not None and isinstance(s, SStr):
        return hook(vc, s)
    if chars is None or not isinstance(chars, str) or not chars:
        raise Unsupported('strip of whitespace on a symbolic str')
    z = zs(s)
    r = vc.str('strip').z
    a = vc.str('strip_l').z if left else z3.StringVal('')
    b = vc.str('strip_r').z if right else z3.StringVal('')
    vc.assume(z == z3.Concat(a, r, b) if left and right else z == z3.Concat(a, r) if left else z == z3.Concat(r, b))
    if left:
        vc.assume(all_chars(a, chars))
        vc.assume(not_first(r, chars))
    if right:
        vc.assume(all_chars(b, chars))
        vc.assume(not_last(r, chars))
    if left and right:
        vc.assume(z3.Implies(z3.Length(r) == 0, z3.Length(b) == 0))
    return SStr(r)


def _m_split(vc, s, sep=None, maxsplit=-1, right=False):
    if sep is None or not isinstance(sep, str):
        raise Unsupported('split without a separator')
    z = zs(s)
    if maxsplit == 1:
        hook = vc.interp.models.get(('rsplit' if right else 'split', sep, 1))
        known = hook(vc, z) if hook is not None else None
        if known is not None:
            return vc.new(SList(items=known))
        if not vc.branch(z3.Contains(z, z3.StringVal(sep))):
            return vc.new(SList(items=[s]))
        h, t = vc.str('split_h'), vc.str('split_t')
        vc.assume(z == z3.Concat(h.z, z3.StringVal(sep), t.z))
        if len(sep) == 1:
            vc.assume(z3.Not(z3.Contains(t.z if right else h.z, z3.StringVal(sep))))
        elif right:
            raise Unsupported('rsplit with a long separator')
        else:
            vc.assume(z3.IndexOf(z, z3.StringVal(sep), 0) == z3.Length(h.z))
        return vc.new(SList(items=[h, t]))
    if ('split', sep) in vc.interp.models and maxsplit == -1:
        return vc.interp.models[('split', sep)](vc, s)
    raise Unsupported('split of a symbolic str')


def _m_partition(vc, s, sep):
    r = _m_split(vc, s, sep, 1)
    if len(r.items) == 1:
        return (s, '', '')
    return (r.items[0], sep, r.items[1])


def _m_rpartition(vc, s, sep):
    r = _m_split(vc, s, sep, 1, True)
    if len(r.items) == 1:
        return ('', '', s)
    return (r.items[0], sep, r.items[1])


def _m_join(vc, s, it):
    key = ('join', s if isinstance(s, str) else None)
    if isinstance(it, Model) and key in vc.interp.models:
        return vc.interp.models[key](vc, it)
    seq = to_sequence(vc, it)
    if isinstance(seq, list):
        if not seq:
            return s[:0] if isinstance(s, (str, bytes)) else ''
        if is_bytes(s):
            r = sbytes_of(seq[0])
            for x in seq[1:]:
                r = bytes_concat(bytes_concat(r, sbytes_of(s)), sbytes_of(x))
            return r
        if any(isinstance(x, Model) for x in seq) and key in vc.interp.models:
            return vc.interp.models[key](vc, seq)
        parts = []
        for k, x in enumerate(seq):
            if k and s != '':
                parts.append(zs(s))
            parts.append(zs(x))
        return mk_str(z3.Concat(*parts) if len(parts) > 1 else parts[0])
    if key in vc.interp.models:
        return vc.interp.models[key](vc, seq)
    raise Unsupported('join of a symbolic list')


def _m_find(vc, s, sub, start=0, *rest):
    if rest:
        raise Unsupported('find with end')
    return SInt(z3.IndexOf(zs(s), zs(sub), zi(start)))


def _m_index(vc, s, sub, start=0):
    if not vc.branch(z3.IndexOf(zs(s), zs(sub), zi(start)) >= 0):
        raise PyRaise(ValueError, ('substring not found',))
    return SInt(z3.IndexOf(zs(s), zs(sub), zi(start)))


def _m_removeprefix(vc, s, p):
    z, pz = zs(s), zs(p)
    if vc.branch(z3.PrefixOf(pz, z)):
        rest = after_prefix(z, z3.Length(pz))
        if rest is not None:
            return mk_str(rest)
        return mk_str(z3.SubString(z, z3.Length(pz), z3.Length(z) - z3.Length(pz)))
    return s


def _m_removesuffix(vc, s, p):
    z, pz = zs(s), zs(p)
    if vc.branch(z3.And(z3.Length(pz) > 0, z3.SuffixOf(pz, z))):
        return mk_str(z3.SubString(z, I0, z3.Length(z) - z3.Length(pz)))
    return s


def _uf_str(name):
    f = z3.Function('str_' + name, z3.StringSort(), z3.StringSort())
    return lambda vc, s: SStr(f(zs(s)))


def _m_encode(vc, s, *a, **k):
    key = 'str_encode'
    if key in vc.interp.models:
        return vc.interp.models[key](vc, s, *a, **k)
    raise Unsupported('encode')


def _m_isdigit(vc, s):
    return mk_bool(z3.InRe(zs(s), z3.Plus(z3.Range('0', '9'))))


def _m_isascii(vc, s):
    return mk_bool(z3.InRe(zs(s), z3.Star(z3.Range(chr(0), chr(127)))))


def _m_replace(vc, s, a, b, *rest):
    f = z3.Function('str_replace_all', z3.StringSort(), z3.StringSort(), z3.StringSort(), z3.StringSort())
    return SStr(f(zs(s), zs(a), zs(b)))


def _m_count(vc, s, sub):
    f = z3.Function('str_count', z3.StringSort(), z3.StringSort(), z3.IntSort())
    vc.assume(f(zs(s), zs(sub)) >= 0)
    vc.assume((f(zs(s), zs(sub)) == 0) == z3.Not(z3.Contains(zs(s), zs(sub))))
    return SInt(f(zs(s), zs(sub)))


STR_METHODS = {
    'startswith': _m_startswith, 'endswith': _m_endswith, 'strip': lambda vc, s, c=None: _strip(vc, s, c, True, True),
    'lstrip': lambda vc, s, c=None: _strip(vc, s, c, True, False), 'rstrip': lambda vc, s, c=None: _strip(vc, s, c, False, True),
    'split': _m_split, 'rsplit': lambda vc, s, sep=None, maxsplit=-1: _m_split(vc, s, sep, maxsplit, True),
    'partition': _m_partition, 'rpartition': _m_rpartition, 'join': _m_join, 'find': _m_find, 'index': _m_index,
    'removeprefix': _m_removeprefix, 'removesuffix': _m_removesuffix, 'lower': _uf_str('lower'), 'upper': _uf_str('upper'),
    'encode': _m_encode, 'isdigit': _m_isdigit, 'isdecimal': _m_isdigit, 'isnumeric': _m_isdigit, 'replace': _m_replace,
    'count': _m_count, 'isascii': _m_isascii, 'format': lambda vc, s, *a, **k: vc.str('fmt'), 'casefold': _uf_str('casefold'),
}


def _b_startswith(vc, s, p):
    if isinstance(p, tuple):
        return mk_bool(z3.Or(*[zb(_b_startswith(vc, s, x)) for x in p]))
    a, b = sbytes_of(s), sbytes_of(p)
    n = simp_int(b.length)
    if n is None:
        raise Unsupported('bytes.startswith symbolic prefix')
    return mk_bool(z3.And(a.length >= n, *[a.at(z3.IntVal(i)) == b.at(z3.IntVal(i)) for i in range(n)]))


def _b_decode(vc, s, *a, **k):
    key = 'bytes_decode'
    if key in vc.interp.models:
        return vc.interp.models[key](vc, s, *a, **k)
    raise Unsupported('bytes.decode')


BYTES_METHODS = {
    'startswith': _b_startswith, 'decode': _b_decode, 'join': _m_join,
    'hex': lambda vc, s: vc.str('hex'),
}


def _l_append(vc, o, x):
    mut(vc, o)
    if o.items is not None:
        o.items.append(x)
    else:
        append_sym(vc, o, x)


def _l_pop(vc, o, idx=-1):
    if o.items is not None and isinstance(idx, int):
        if not o.items:
            raise PyRaise(IndexError, ('pop from empty list',))
        mut(vc, o)
        try:
            return o.items.pop(idx)
        except IndexError as e:
            raise PyRaise(IndexError, e.args) from e
    base = o.copy()
    if not vc.branch(base.length > 0):
        raise PyRaise(IndexError, ('pop from empty list',))
    mut(vc, o)
    if isinstance(idx, int) and idx == -1:
        x = base.elem(base.length - 1)
        o.become(z3.simplify(base.length - 1), base.elem)
        return x
    if isinstance(idx, int) and idx == 0:
        x = base.elem(I0)
        o.become(z3.simplify(base.length - 1), lambda i: base.elem(i + 1))
        return x
    at = index_of(vc, base.length, idx)
    x = base.elem(at)
    o.become(z3.simplify(base.length - 1), lambda i: merge_elem(vc, i >= at, base.elem(i + 1), base, i))
    return x


def _l_insert(vc, o, idx, x):
    mut(vc, o)
    if o.items is not None and isinstance(idx, int):
        o.items.insert(idx, x)
        return
    if isinstance(idx, int) and idx == 0:
        base = o.copy()
        o.become(z3.simplify(base.length + 1), lambda i: merge_elem(vc, i == 0, x, _Shift(base, 1), i))
        return
    raise Unsupported('insert')


class _Shift:
    def __init__(self, base, d):
        self.base, self.d = base, d

    def elem(self, i):
        return self.base.elem(i - self.d)


def _l_clear(vc, o):
    mut(vc, o)
    o.items, o._length, o.elem_ = [], None, None


def _l_index(vc, o, x):
    if isinstance(o, SList) and o.items is None:
        if not vc.branch(zb(contains(vc, o, x))):
            raise PyRaise(ValueError, ('not in list',))
        i, j = z3.Int(vc.name('index')), z3.Int(vc.name('before'))
        vc.assume(z3.And(i >= 0, i < o.length, zb(eq(vc, o.elem(i), x))))
        vc.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), z3.Not(zb(eq(vc, o.elem(j), x))))))
        return SInt(i)
    items = to_list(vc, o)
    for k, y in enumerate(items):
        e = eq(vc, y, x)
        if e if isinstance(e, bool) else vc.branch(zb(e)):
            return k
    raise PyRaise(ValueError, ('not in list',))


def _l_remove(vc, o, x):
    k = _l_index(vc, o, x)
    _l_pop(vc, o, k)


def _l_count(vc, o, x):
    r = I0
    for y in to_list(vc, o):
        r = r + z3.If(zb(eq(vc, y, x)), I1, I0)
    return mk_int(r)


def _l_reverse(vc, o):
    mut(vc, o)
    o.assign(reverse_list(vc, o))


def _l_sort(vc, o, key=None, reverse=False):
    mut(vc, o)
    o.assign(_sorted(vc, o, key=key, reverse=reverse))


LIST_METHODS = {
    'append': _l_append, 'extend': lambda vc, o, x: list_extend(vc, o, x), 'pop': _l_pop, 'insert': _l_insert,
    'clear': _l_clear, 'copy': lambda vc, o: vc.new(o.copy()), 'index': _l_index, 'remove': _l_remove, 'count': _l_count,
    'reverse': _l_reverse, 'sort': _l_sort,
}


def _d_get(vc, d, key, default=None):
    if d.items is not None:
        e = dict_find(vc, d, key)
        return default if e is None else e[1]
    k = d.key(key)
    return d.get(k) if vc.branch(d.has(k)) else default


def _d_pop(vc, d, key, *default):
    if d.items is not None:
        e = dict_find(vc, d, key)
        if e is None:
            if default:
                return default[0]
            raise PyRaise(KeyError, (key,))
        mut(vc, d)
        d.items = [x for x in d.items if x is not e]
        return e[1]
    k = d.key(key)
    if not vc.branch(d.has(k)):
        if default:
            return default[0]
        raise PyRaise(KeyError, (key,))
    v = d.get(k)
    delitem(vc, d, key)
    return v


def _d_items(vc, d):
    if d.items is not None:
        return vc.new(SList(items=[(k, v) for k, v in d.items]))
    if d.order is not None:
        return SList(d.order.length, lambda i: (d.order.elem(i), d.get(d.key(d.order.elem(i)))))
    raise Unsupported('items of a symbolic dict')


def _d_keys(vc, d):
    if d.items is not None:
        return vc.new(SList(items=[k for k, _v in d.items]))
    if d.order is not None:
        return d.order
    return _KeysView(d)


class _KeysView(Model):
    def __init__(self, d):
        self.d = d

    def contains(self, vc, x):
        return contains(vc, self.d, x)


def _d_values(vc, d):
    if d.items is not None:
        return vc.new(SList(items=[v for _k, v in d.items]))
    if d.order is not None:
        return SList(d.order.length, lambda i: d.get(d.key(d.order.elem(i))))
    raise Unsupported('values of a symbolic dict')


def _d_setdefault(vc, d, key, default=None):
    c = contains(vc, d, key)
    if c if isinstance(c, bool) else vc.branch(zb(c)):
        return getitem(vc, d, key)
    setitem(vc, d, key, default)
    return default


def _d_clear(vc, d):
    mut(vc, d)
    d.items = []
    d.has = d.get = d.size = d.order = None


DICT_METHODS = {
    'get': _d_get, 'pop': _d_pop, 'items': _d_items, 'keys': _d_keys, 'values': _d_values, 'setdefault': _d_setdefault,
    'update': lambda vc, d, o=(), **k: (dict_update(vc, d, o), [setitem(vc, d, x, y) for x, y in k.items()])[0],
    'copy': dict_copy, 'clear': _d_clear,
}

SET_METHODS = {
    'add': set_add, 'discard': set_discard, 'remove': lambda vc, s, x: set_discard(vc, s, x, True),
    'update': lambda vc, s, *its: [set_add(vc, s, x) for it in its for x in to_list(vc, it)] and None,
    'copy': lambda vc, s: vc.new(SSet(None if s.items is None else list(s.items), s.key, s.has)),
    'clear': lambda vc, s: (mut(vc, s), setattr(s, 'items', []))[0],
    'union': lambda vc, a, b: set_op(vc, 'BitOr', a, b if isinstance(b, SSet) else SSet(items=to_list(vc, b))),
    'difference': lambda vc, a, b: set_op(vc, 'Sub', a, b if isinstance(b, SSet) else SSet(items=to_list(vc, b))),
    'intersection': lambda vc, a, b: set_op(vc, 'BitAnd', a, b if isinstance(b, SSet) else SSet(items=to_list(vc, b))),
}

def _int_to_bytes(vc, x, length=1, byteorder='big', **k):
    key = 'int_to_bytes'
    if key in vc.interp.models:
        return vc.interp.models[key](vc, x, length, byteorder, **k)
    raise Unsupported('int.to_bytes')


INT_METHODS = {'bit_length': lambda vc, x: vc.nat('bitlen'), 'to_bytes': _int_to_bytes}


def int_to_str(vc, x):
    return SStr(z3.If(x.z >= 0, z3.IntToStr(x.z), z3.Concat(z3.StringVal('-'), z3.IntToStr(-x.z))))


# ---- context managers ---------------------------------------------------------------------------------------------


def context_manager(vc, interp, cm):
    if isinstance(cm, Model) and hasattr(cm, 'enter'):
        return (lambda: cm.enter(vc)), (lambda e: cm.exit(vc, e))
    if isinstance(cm, Obj):
        en, ex = interp.find_method(cm, '__enter__'), interp.find_method(cm, '__exit__')
        if en is None or ex is None:
            raise PyRaise(AttributeError, ('__enter__',))

        def do_exit(e):
            if e is None:
                r = interp.call(ex, [None, None, None])
            else:
                if e.obj is None:
                    e.obj = vc.new(Obj(e.cls, {'args': tuple(e.exc_args)}, e.cls.__name__))
                r = interp.call(ex, [e.cls, e.obj, None])
            return interp.truth(r)

        return (lambda: interp.call(en, [])), do_exit
    if isinstance(cm, contextlib.nullcontext):
        return (lambda: cm.enter_result), (lambda e: False)
    if isinstance(cm, contextlib.suppress):
        return (lambda: None), (lambda e: e is not None and issubclass(e.cls, cm._exceptions))
    raise Unsupported(f'context manager {cm!r}')


# ---- builtins ------------------------------------------------------------------------------------------------------


def _ord(vc, x):
    if isinstance(x, SStr):
        if not isinstance(x, SChar) and not vc.branch(z3.Length(x.z) == 1):
            raise PyRaise(TypeError, ('ord() expected a character',))
        return SInt(z3.StrToCode(x.z))
    if isinstance(x, SBytes):
        if not vc.branch(x.length == 1):
            raise PyRaise(TypeError, ('ord() expected a character',))
        return SInt(x.at(I0))
    if isinstance(x, (str, bytes)):
        try:
            return ord(x)
        except TypeError as e:
            raise PyRaise(TypeError, e.args) from e
    raise Unsupported('ord of ' + type(x).__name__)


def _len(vc, x):
    if isinstance(x, SList):
        return len(x.items) if x.items is not None else mk_int(x.length)
    if isinstance(x, SBytes):
        return mk_int(x.length)
    if isinstance(x, SStr):
        return mk_int(z3.Length(x.z))
    if isinstance(x, SDict):
        if x.items is not None:
            return len(x.items)
        if x.size is None:
            raise Unsupported('len of a dict of unknown size')
        return x.size
    if isinstance(x, SSet) and x.items is not None:
        return len(x.items)
    if isinstance(x, Obj):
        m = vc.interp.find_method(x, '__len__')
        if m is not None:
            return vc.interp.call(m, [])
    if isinstance(x, Model) and hasattr(x, 'len'):
        return x.len(vc)
    if isinstance(x, (tuple, str, bytes, list, dict, set, frozenset, range)):
        return len(x)
    if x is None or isinstance(x, (int, SInt)):
        raise PyRaise(TypeError, ('object has no len()',))
    raise Unsupported(f'len of {type(x).__name__}')


def _minmax(vc, args, k, is_min):
    key = k.pop('key', None)
    has_default = 'default' in k
    default = k.pop('default', None)
    if len(args) == 1:
        seq = to_sequence(vc, args[0])
        if isinstance(seq, SList):
            if key is not None:
                seq = to_list(vc, seq)
            else:
                if not vc.branch(seq.length > 0):
                    if has_default:
                        return default
                    raise PyRaise(ValueError, ('min()/max() arg is an empty sequence',))
                m = vc.int('minmax')
                j = vc.skolem('mm_at')
                i = z3.Int(vc.name('mm_i'))
                vc.assume(z3.And(j >= 0, j < seq.length, zi(seq.elem(j)) == m.z))
                bound = zi(seq.elem(i)) >= m.z if is_min else zi(seq.elem(i)) <= m.z
                vc.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < seq.length), bound)))
                return m
        args = seq
    if not args:
        if has_default:
            return default
        raise PyRaise(ValueError, ('min()/max() arg is an empty sequence',))
    best = args[0]
    for x in args[1:]:
        kb, kx = (vc.interp.call(key, [best]), vc.interp.call(key, [x])) if key else (best, x)
        c = compare(vc, 'Lt', kx, kb) if is_min else compare(vc, 'Gt', kx, kb)
        if isinstance(c, bool):
            best = x if c else best
        else:
            best = ite(vc, zb(c), x, best)
    return best


def _sum(vc, it, start=0):
    seq = to_sequence(vc, it)
    if isinstance(seq, list):
        r = start
        for x in seq:
            r = binop(vc, 'Add', r, x)
        return r
    key = 'sum'
    if key in vc.interp.models:
        return vc.interp.models[key](vc, seq, start)
    return vc.int('sum')  # some number


def _range(vc, *a):
    if all(is_plain(x) for x in a):
        return range(*a)
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    if len(a) == 3 and a[2] != 1:
        step = a[2]
        if type(step) is not int or step < 1:
            raise Unsupported('symbolic range with such a step')
        lo, hi = zi(a[0]), zi(a[1])
        return SList(z3.If(hi > lo, (hi - lo + step - 1) / step, 0), lambda k: mk_int(lo + step * (k if z3.is_expr(k) else z3.IntVal(k))), False, 'range')
    n = z3.simplify(z3.If(zi(hi) > zi(lo), zi(hi) - zi(lo), I0))
    return SList(n, lambda i: mk_int(zi(lo) + i), False, 'range')


def _enumerate(vc, it, start=0):
    seq = to_sequence(vc, it)
    if isinstance(seq, list):
        return SList(items=[(binop(vc, 'Add', start, k), x) for k, x in enumerate(seq)])
    return SList(seq.length, lambda i: (mk_int(i + zi(start)), seq.elem(i)), False)


def _zip(vc, *its, **k):
    seqs = [to_sequence(vc, x) for x in its]
    if len(its) == 0:
        return SList(items=[])
    if all(isinstance(s, list) for s in seqs):
        return SList(items=[tuple(t) for t in zip(*seqs)])
    seqs = [SList(items=s) if isinstance(s, list) else s for s in seqs]
    n = seqs[0].length
    for s in seqs[1:]:
        n = z3.If(s.length < n, s.length, n)
    return SList(z3.simplify(n), lambda i: tuple(s.elem(i) for s in seqs), False)


def unzip(vc, interp, it):
    """zip(*it): for a list of equally long tuples of unknown number, the tuple of columns."""
    seq = to_sequence(vc, it)
    if isinstance(seq, list):
        return _zip(vc, *seq)
    if not vc.branch(seq.length > 0):
        return SList(items=[])
    width = len(seq.elem(z3.IntVal(0)))
    return SList(items=[SList(seq.length, (lambda c: lambda i: seq.elem(i)[c])(c), False, f'column{c}') for c in range(width)])


def _isinstance(vc, x, c):
    if isinstance(c, tuple):
        return any(_isinstance(vc, x, y) is True for y in c)
    import typing

    if not isinstance(c, type):
        origin = typing.get_origin(c)
        if origin is typing.Union or type(c).__name__ == 'UnionType':
            return any(_isinstance(vc, x, y) for y in typing.get_args(c))
        if origin is not None:
            c = origin
        else:
            raise Unsupported(f'isinstance {c!r}')
    pt = pytype_of(vc, x)
    if pt is None:
        raise Unsupported(f'isinstance of an opaque value with {c}')
    try:
        return issubclass(pt, c)
    except TypeError as e:
        raise Unsupported(f'isinstance {c!r}') from e


def pytype_of(vc, x):
    m = {SInt: int, SBool: bool, SStr: str, SChar: str, SBytes: bytes, SDict: dict, SSet: set, SReal: float}
    if type(x) in m:
        return m[type(x)]
    if isinstance(x, SList):
        return list if x.mutable else tuple
    if isinstance(x, Obj):
        return x.cls
    if isinstance(x, Model):
        return getattr(x, 'pytype', None)
    if isinstance(x, (Closure, Host, Bound)):
        return type(lambda: 0)
    if isinstance(x, SVal):
        return None
    return type(x)


def _hasattr(vc, x, name):
    if isinstance(x, Model):
        return hasattr(x, 'a_' + name) or hasattr(x, 'm_' + name)
    try:
        vc.interp.getattr(x, name)
        return True
    except PyRaise as e:
        if issubclass(e.cls, AttributeError):
            return False
        raise


def _getattr(vc, x, name, *default):
    try:
        return vc.interp.getattr(x, name)
    except PyRaise as e:
        if default and issubclass(e.cls, AttributeError):
            return default[0]
        raise


def _setattr(vc, x, name, v):
    vc.interp.setattr(x, name, v)


def _int(vc, x=0, *base):
    if is_plain(x):
        try:
            return int(x, *base)
        except Exception as e:  # pylint: disable=broad-except
            raise PyRaise(type(e), e.args) from e
    if isinstance(x, (SInt, SBool)):
        return SInt(zi(x))
    if isinstance(x, SReal):
        return mk_int(z3.If(x.z >= 0, z3.ToInt(x.z), -z3.ToInt(-x.z)))
    if isinstance(x, SStr) and (not base or base[0] == 10):
        # only plain decimal digits are modelled; anything else may or may not raise (over-approximated)
        if vc.branch(z3.InRe(x.z, z3.Plus(z3.Range('0', '9')))):
            return SInt(z3.StrToInt(x.z))
        if vc.choose('int_parse_error'):
            raise PyRaise(ValueError, ('invalid literal for int()',))
        return vc.int('parsed')
    if isinstance(x, (SBytes, SVal, SStr)):
        if vc.choose('int_parse_error'):
            raise PyRaise(ValueError, ('invalid literal for int()',))
        return vc.int('parsed')
    raise Unsupported(f'int({type(x).__name__})')


def _str(vc, x='', *a, **k):
    if isinstance(x, SStr):
        return x
    if is_plain(x) and not a and not k:
        return str(to_native(x))
    if isinstance(x, SInt):
        return int_to_str(vc, x)
    if isinstance(x, Model) and hasattr(x, 'str'):
        return x.str(vc)
    return vc.str('str')


def _bool(vc, x=False):
    t = truth(vc, x)
    return t if isinstance(t, bool) else SBool(t)


def _list(vc, it=()):
    seq = to_sequence(vc, it)
    return vc.new(SList(items=list(seq)) if isinstance(seq, list) else seq.copy(True))


def _tuple(vc, it=()):
    seq = to_sequence(vc, it)
    if isinstance(seq, list):
        return tuple(seq)
    return vc.new(seq.copy(False))


def _dict(vc, *a, **k):
    r = vc.new(SDict(items=[]))
    if a:
        if isinstance(a[0], SDict):
            r = dict_copy(vc, a[0])
        else:
            seq = to_sequence(vc, a[0])
            if isinstance(seq, SList) and seq.items is None:
                r = dict_of_pairs(vc, seq)
            else:
                dict_update(vc, r, seq)
    for x, y in k.items():
        setitem(vc, r, x, y)
    return r


def _set(vc, it=()):
    if isinstance(it, SSet):
        return SET_METHODS['copy'](vc, it)
    r = vc.new(SSet(items=[]))
    for x in to_list(vc, it):
        set_add(vc, r, x)
    return r


def _sorted(vc, it, key=None, reverse=False):
    items = to_sequence(vc, it)
    if isinstance(items, list) and key is None and all(is_plain(x) for x in items):
        return vc.new(SList(items=[from_native(x) for x in sorted([to_native(x) for x in items], reverse=reverse)]))
    if isinstance(items, list):
        # insertion sort with forking comparisons (stable)
        out = []
        for x in items:
            kx = vc.interp.call(key, [x]) if key else x
            pos = len(out)
            while pos > 0:
                c = compare(vc, 'Lt', kx, out[pos - 1][0]) if not reverse else compare(vc, 'Gt', kx, out[pos - 1][0])
                if c if isinstance(c, bool) else vc.branch(zb(c)):
                    pos -= 1
                else:
                    break
            out.insert(pos, (kx, x))
        return vc.new(SList(items=[x for _k, x in out]))
    raise Unsupported('sorted of a symbolic list')


def _reversed(vc, it):
    seq = to_sequence(vc, it)
    if isinstance(seq, list):
        return SList(items=seq[::-1])
    return reverse_list(vc, seq)


def _quant(vc, it, is_all):
    seq = to_sequence(vc, it)
    if isinstance(seq, list):
        for x in seq:
            t = truth(vc, x)
            t = t if isinstance(t, bool) else vc.branch(t)
            if t != is_all:
                return not is_all
        return is_all
    i = z3.Int(vc.name('q_i'))
    body = zb(truth(vc, seq.elem(i)))
    rng = z3.And(i >= 0, i < seq.length)
    return SBool(z3.ForAll([i], z3.Implies(rng, body)) if is_all else z3.Exists([i], z3.And(rng, body)))


def _abs(vc, x):
    return mk_int(z3.If(zi(x) >= 0, zi(x), -zi(x)))


def _bisect(side):
    def model(vc, a, x, *rest):
        if rest:
            raise Unsupported('bisect with bounds')
        seq = to_sequence(vc, a)
        if isinstance(seq, list):
            seq = SList(items=seq)
        # Trusted model of bisect for a sorted list; sortedness is proved here.
        i, j = z3.Int(vc.name('bs_i')), z3.Int(vc.name('bs_j'))
        n = seq.length
        el = lambda t: zi(seq.elem(t))
        if seq.items is None:
            vc.prove(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j < n), el(i) <= el(j))), f'bisect{side} argument is sorted')
        r = vc.int('bisect').z
        vc.assume(z3.And(r >= 0, r <= n))
        if side == '_left':
            vc.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < r), el(i) < zi(x))))
            vc.assume(z3.ForAll([i], z3.Implies(z3.And(i >= r, i < n), el(i) >= zi(x))))
        else:
            vc.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < r), el(i) <= zi(x))))
            vc.assume(z3.ForAll([i], z3.Implies(z3.And(i >= r, i < n), el(i) > zi(x))))
        # boundary instances (the quantifiers have only array patterns)
        vc.assume(z3.Implies(r > 0, el(r - 1) < zi(x) if side == '_left' else el(r - 1) <= zi(x)))
        vc.assume(z3.Implies(r < n, el(r) >= zi(x) if side == '_left' else el(r) > zi(x)))
        vc.assume(z3.Implies(z3.And(n > 0, r < n), el(n - 1) >= zi(x) if side == '_left' else el(n - 1) > zi(x)))
        vc.assume(z3.Implies(z3.And(n > 0, r > 0), el(I0) < zi(x) if side == '_left' else el(I0) <= zi(x)))
        vc.report.trusted.add('bisect.bisect' + side)
        return SInt(r)

    return model


def _nop(vc, *a, **k):
    return None


def _iter_next(vc, it, *default):
    seq = it
    if isinstance(seq, Model) and hasattr(seq, 'iterate'):
        seq = to_sequence(vc, seq)
        if isinstance(seq, list):
            seq = SList(items=seq)
    if isinstance(seq, SList):
        if seq.items is not None:
            if seq.items:
                return seq.items.pop(0) if getattr(seq, 'is_iter', False) else seq.items[0]
            if default:
                return default[0]
            raise PyRaise(StopIteration, ())
        if vc.branch(seq.length > 0):
            return seq.elem(I0)
        if default:
            return default[0]
        raise PyRaise(StopIteration, ())
    raise Unsupported('next')


def _map(vc, f, it):
    seq = to_sequence(vc, it)
    if isinstance(seq, list):
        return SList(items=[vc.interp.call(f, [x]) for x in seq])
    return SList(seq.length, lambda i: vc.interp.call(f, [seq.elem(i)]), False)


def _join_path(vc, a, *parts):
    """posixpath.join, exact for symbolic strings"""
    if is_plain(a) and all(is_plain(p) for p in parts):
        return posixpath.join(a, *parts)
    cur = a
    for p in parts:
        if vc.branch(zb(_m_startswith(vc, p, '/') if not isinstance(p, str) else p.startswith('/'))):
            cur = p
            continue
        e = z3.Or(z3.Length(zs(cur)) == 0, z3.SuffixOf(z3.StringVal('/'), zs(cur)))
        if vc.branch(z3.simplify(e)):
            cur = binop(vc, 'Add', cur, p)
        else:
            cur = mk_str(z3.Concat(zs(cur), z3.StringVal('/'), zs(p)))
    return cur


def _type(vc, x):
    t = pytype_of(vc, x)
    if t is None:
        raise Unsupported('type of opaque')
    return t


def _stat_pred(mask_value):
    def f(vc, mode):
        if isinstance(mode, int):
            return (mode & 0o170000) == mask_value
        return mk_bool(zi(bitop(vc, 'BitAnd', mode, 0o170000)) == mask_value)

    return f


def _s_imode(vc, mode):
    return bitop(vc, 'BitAnd', mode, 0o7777) if not isinstance(mode, int) else mode & 0o7777


def _s_ifmt(vc, mode):
    return bitop(vc, 'BitAnd', mode, 0o170000) if not isinstance(mode, int) else mode & 0o170000


MODELS = {
    len: _len, ord: _ord, divmod: lambda vc, a, b: (binop(vc, 'FloorDiv', a, b), binop(vc, 'Mod', a, b)), min: lambda vc, *a, **k: _minmax(vc, a, k, True), max: lambda vc, *a, **k: _minmax(vc, a, k, False),
    sum: _sum, range: _range, enumerate: _enumerate, zip: _zip, isinstance: _isinstance, hasattr: _hasattr,
    getattr: _getattr, setattr: _setattr, int: _int, str: _str, bool: _bool, list: _list, tuple: _tuple, dict: _dict,
    set: _set, frozenset: _set, sorted: _sorted, reversed: _reversed, all: lambda vc, it: _quant(vc, it, True),
    any: lambda vc, it: _quant(vc, it, False), abs: _abs, print: _nop, map: _map, type: _type, next: _iter_next,
    iter: lambda vc, x: x, callable: lambda vc, x: isinstance(x, (Host, Bound, Closure)) or callable(x),
    repr: lambda vc, x: vc.str('repr'), id: lambda vc, x: id(x),
    bisect.bisect_left: _bisect('_left'), bisect.bisect_right: _bisect('_right'), bisect.bisect: _bisect('_right'),
    contextlib.nullcontext: lambda vc, x=None: contextlib.nullcontext(x),
    contextlib.suppress: lambda vc, *a: contextlib.suppress(*a),
    typing.cast: lambda vc, t, x: x,
    os.path.join: _join_path, posixpath.join: _join_path,
    stat_module.S_ISDIR: _stat_pred(0o040000), stat_module.S_ISREG: _stat_pred(0o100000), stat_module.S_ISLNK: _stat_pred(0o120000),
    stat_module.S_ISCHR: _stat_pred(0o020000), stat_module.S_ISBLK: _stat_pred(0o060000), stat_module.S_ISFIFO: _stat_pred(0o010000),
    stat_module.S_ISSOCK: _stat_pred(0o140000), stat_module.S_IMODE: _s_imode, stat_module.S_IFMT: _s_ifmt,
}
for _n in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'log'):
    MODELS[getattr(logging.Logger, _n)] = _nop
MODELS[logging.Logger.isEnabledFor] = lambda vc, *a: False
MODELS[logging.Logger.getEffectiveLevel] = lambda vc, *a: 30


# ---- models of external objects --------------------------------------------------------------------------------------


class Lock(Model):
    """Mutex.  While it is not held, other threads may do anything to the resources it protects: acquiring it calls
    every registered interference function."""
    pytype = type(threading.Lock())

    def __init__(self, name='lock', reentrant=False):
        self.name, self.held, self.reentrant, self.interference = name, 0, reentrant, []

    def enter(self, vc):
        if self.held and not self.reentrant:
            vc.prove(False, f'{self.name} is not acquired twice by one thread')
        if not self.held:
            for f in self.interference:
                f()
        self.held += 1
        return self

    def exit(self, vc, e):
        self.held -= 1
        return False

    def m_acquire(self, vc, *a, **k):
        self.enter(vc)
        return True

    def m_release(self, vc):
        self.held -= 1


class File(Model):
    """Seekable binary file with immutable contents `data(i)` for 0 <= i < size.  Reads at position p < size return
    between 1 and n bytes when `short`, else exactly min(n, size - p)."""
    pytype = io.BufferedReader

    def __init__(self, vc, name, data, size, pos=0, short=False, lock=None, closed=False):
        self.name, self.data, self.size, self.pos, self.short, self.lock = name, data, zi(size), zi(pos), short, lock
        self.closed = closed
        self.serial = None
        if lock is not None:
            lock.interference.append(lambda: self.havoc(vc))

    def havoc(self, vc):
        self.pos = vc.nat(self.name + '_pos').z

    def _interfere(self, vc):
        if self.lock is not None and not self.lock.held:
            self.havoc(vc)

    def a_closed(self, vc):
        return self.closed

    def m_readable(self, vc):
        return True

    def m_seekable(self, vc):
        return True

    def m_writable(self, vc):
        return False

    def m_close(self, vc):
        self.closed = True

    def enter(self, vc):
        return self

    def exit(self, vc, e):
        self.closed = True
        return False

    def m_seek(self, vc, offset, whence=0):
        self._interfere(vc)
        if not isinstance(whence, int):
            raise Unsupported('symbolic whence')
        base = {0: I0, 1: self.pos, 2: self.size}[whence]
        p = z3.simplify(base + zi(offset))
        if vc.branch(p < 0):
            raise PyRaise(ValueError if whence == 0 else OSError, ('negative seek position',))
        self.pos = p
        vc.log_write(self, 'pos')
        return mk_int(p)

    def m_tell(self, vc):
        self._interfere(vc)
        return mk_int(self.pos)

    def m_read(self, vc, n=-1):
        self._interfere(vc)
        if self.closed is True:
            raise PyRaise(ValueError, ('I/O operation on closed file',))
        p, data = self.pos, self.data
        avail = z3.If(self.size > p, self.size - p, I0)
        if n is None:
            n = -1
        want = zi(n)
        ln = z3.If(want < 0, avail, z3.If(want < avail, want, avail))
        if self.short:
            got = vc.int(self.name + '_got').z
            vc.assume(z3.And(got >= 0, got <= ln, z3.Implies(ln > 0, got >= 1)))
            ln = got
        ln = z3.simplify(ln)
        self.pos = z3.simplify(p + ln)
        vc.log_write(self, 'pos')
        return SBytes(ln, lambda i: data(p + i))


class Opaque(Model):
    """External object whose methods are given as host functions."""

    def __init__(self, name, methods=None, attrs=None, pytype=None):
        self.name = name
        self.pytype = pytype
        self.serial = None
        for k, f in (methods or {}).items():
            setattr(self, 'm_' + k, f)
        for k, v in (attrs or {}).items():
            setattr(self, 'a_' + k, (lambda v: lambda vc: v)(v))

    def enter(self, vc):
        return self

    def exit(self, vc, e):
        return False
