"""Loads the modules under test from source, rewritten so that operations the
interpreter performs in C (calls to builtins, subscripting, membership) go
through dispatchers that understand symbolic values.  The rewriting is purely
mechanical and applied to whatever the files contain at this moment; with only
concrete values every dispatcher is the identity.
"""

from __future__ import annotations

import ast
import builtins
import collections
import copy
import enum
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import io
import itertools
import operator
import re
import struct
import sys
import types
import uuid
from bisect import bisect_left, bisect_right, insort

from vx import core, sre
from vx.core import SymBool, SymInt, Unsupported, engine, or_
from vx.symbytes import (
    SymByteArray, SymView,
    SymBytes,
    SymBytesIO,
    SymFrac,
    SymStr,
    SymText,
    SymTime,
    SymUUID,
    concrete,
    from_bytes,
    is_bytes,
    join,
    signed,
    simplify,
    to_sym,
)

SYM = (SymInt, SymBool, SymBytes, SymStr, SymText, SymUUID, SymTime, SymFrac)


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []
        self.temps = 0

    # annotations are never evaluated for their value here
    def visit_arg(self, node):
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def _func(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        body = []
        for stmt in node.body:
            r = self.visit(stmt)
            body.extend(r if isinstance(r, list) else [r])
        mark = _expr_call("__vx_fn__", [ast.Constant(f"{self.modname}:{'.'.join(self.stack)}")])
        at = 0
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            at = 1
        body.insert(at, ast.copy_location(ast.Expr(mark), node))
        node.body = body
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        body = []
        for stmt in node.body:
            r = self.visit(stmt)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        self.stack.pop()
        return node

    def _loop(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.copy_location(ast.Expr(_expr_call("__vx_tick__", [])), node))
        return node

    visit_While = _loop
    visit_For = _loop

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals", "vars", "dir"):
            return self.generic_visit(node)
        self.generic_visit(node)
        new = ast.Call(
            func=ast.Name("__vx_call__", ast.Load()),
            args=[node.func, *node.args],
            keywords=node.keywords,
        )
        return ast.copy_location(new, node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            call = _expr_call("__vx_in__", [node.left, node.comparators[0]])
            if isinstance(node.ops[0], ast.NotIn):
                call = ast.UnaryOp(ast.Not(), call)
            return ast.copy_location(call, node)
        return node

    def visit_DictComp(self, node):
        self.generic_visit(node)
        pairs = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return ast.copy_location(_expr_call("__vx_dict__", [pairs]), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(_expr_call("__vx_set__", [ast.Tuple(node.elts, ast.Load())]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(_expr_call("__vx_set__", [ast.GeneratorExp(node.elt, node.generators)]), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if None in node.keys or all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        pairs = [ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)]
        return ast.copy_location(_expr_call("__vx_dict__", [ast.Tuple(pairs, ast.Load())]), node)

    def visit_AugAssign(self, node):
        t = node.target
        if isinstance(t, ast.Subscript) and _pure(t.value) and _pure(t.slice):
            load = ast.Subscript(copy.deepcopy(t.value), copy.deepcopy(t.slice), ast.Load())
            new = ast.Assign([t], ast.BinOp(load, node.op, node.value))
            return self.visit(ast.copy_location(new, node))
        return self.generic_visit(node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(_expr_call("__vx_getitem__", [node.value, _index(node.slice)]), node)
        return node

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            value = self.visit(node.value)
            call = _expr_call("__vx_setitem__", [self.visit(t.value), _index(self.visit(t.slice)), value])
            return ast.copy_location(ast.Expr(call), node)
        if any(isinstance(x, ast.Subscript) for t in node.targets for x in _targets(t)) and len(node.targets) > 1:
            self.temps += 1
            name = f"__vx_t{self.temps}"
            parts = [ast.Assign([ast.Name(name, ast.Store())], node.value)]
            parts += [ast.Assign([t], ast.Name(name, ast.Load())) for t in node.targets]
            return self._several(parts, node)
        if any(isinstance(x, ast.Subscript) for x in _targets(node.targets[0])):
            stores = []
            target = self._split(node.targets[0], stores)
            return self._several([ast.Assign([target], node.value), *stores], node)
        return self.generic_visit(node)

    def _split(self, t, stores):
        """The target with names for the subscripts in it; the stores to make afterwards go to ``stores``."""
        if isinstance(t, (ast.Tuple, ast.List)):
            return type(t)([self._split(e, stores) for e in t.elts], ast.Store())
        if isinstance(t, ast.Starred):
            return ast.Starred(self._split(t.value, stores), ast.Store())
        if not isinstance(t, ast.Subscript):
            return t
        self.temps += 1
        name = f"__vx_t{self.temps}"
        stores.append(ast.Assign([t], ast.Name(name, ast.Load())))
        return ast.Name(name, ast.Store())

    def _several(self, parts, node):
        out = []
        for part in parts:
            r = self.visit(ast.copy_location(part, node))
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_Delete(self, node):
        if len(node.targets) == 1 and isinstance(t := node.targets[0], ast.Subscript):
            call = _expr_call("__vx_delitem__", [self.visit(t.value), _index(self.visit(t.slice))])
            return ast.copy_location(ast.Expr(call), node)
        return self.generic_visit(node)


def _targets(t):
    if isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            yield from _targets(e)
    elif isinstance(t, ast.Starred):
        yield from _targets(t.value)
    else:
        yield t


def _index(s):
    if isinstance(s, ast.Slice):
        none = ast.Constant(None)
        return ast.Call(
            func=ast.Name("__vx_slice__", ast.Load()),
            args=[s.lower or none, s.upper or none, s.step or none],
            keywords=[],
        )
    return s


def _pure(n):
    return all(
        isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.BinOp, ast.operator, ast.expr_context, ast.Subscript))
        for x in ast.walk(n)
    )


def _expr_call(name, args):
    return ast.Call(func=ast.Name(name, ast.Load()), args=args, keywords=[])


# -- dispatchers -------------------------------------------------------------------------


def has_sym(args):
    for a in args:
        if isinstance(a, SYM):
            return True
        if type(a) in (list, tuple) and any(isinstance(i, SYM) for i in a):
            return True
    return False


def vx_tick():
    engine_ = core._engine
    if engine_ is not None:
        engine_.tick()


def vx_fn(name):
    engine_ = core._engine
    if engine_ is not None:
        engine_.functions.add(name)


def dict_find(d, k):
    """The key of ``d`` equal to ``k`` (forking over the candidates), or None."""
    for key in d:
        if key is k:
            return (key,)
    for key in d:
        if key == k:
            return (key,)
    return None


def keyed_get(d, k):
    core._keying.append(1)
    try:
        return dict.__getitem__(d, k)
    finally:
        core._keying.pop()


def keyed_set(d, k, v):
    core._keying.append(1)
    try:
        dict.__setitem__(d, k, v)
    finally:
        core._keying.pop()


def keyed_pop(d, k):
    core._keying.append(1)
    try:
        return dict.pop(d, k)
    finally:
        core._keying.pop()


def vx_dict(pairs):
    d = {}
    for k, v in pairs:
        vx_setitem(d, k, v)
    return d


def vx_set(items):
    out = set()
    for x in items:
        if isinstance(x, SYM) or any(isinstance(i, SYM) for i in out) or has_sym((x,)):
            _method(out, "add", (x,), {})
        else:
            out.add(x)
    return out


def _dict_symbolic(d, k):
    if isinstance(k, SYM):
        return True
    if type(k) is tuple and any(isinstance(i, SYM) for i in k):
        return True
    return any(isinstance(x, SYM) for x in d)


def vx_getitem(o, i):
    if isinstance(o, dict):
        if _dict_symbolic(o, i):
            f = dict_find(o, i)
            if f is None:
                if isinstance(o, collections.defaultdict) and o.default_factory is not None:
                    v = o.default_factory()
                    keyed_set(o, i, v)
                    return v
                if hasattr(type(o), "__missing__"):
                    return o[i]
                raise KeyError(i)
            return keyed_get(o, f[0])
        return o[i]
    if isinstance(o, (bytes, bytearray, memoryview)):
        if isinstance(i, slice):
            if has_sym((i.start, i.stop, i.step)):
                return to_sym(o)[i]
        elif isinstance(i, SymInt):
            return o[engine().concretize(i)]
    if isinstance(o, str) and isinstance(i, slice):
        i = slice(*(concrete(x) for x in (i.start, i.stop, i.step)))
    return o[i]


def vx_setitem(o, i, v):
    if isinstance(o, dict) and _dict_symbolic(o, i):
        f = dict_find(o, i)
        keyed_set(o, i if f is None else f[0], v)
        return
    o[i] = v


def vx_delitem(o, i):
    if isinstance(o, dict) and _dict_symbolic(o, i):
        f = dict_find(o, i)
        if f is None:
            raise KeyError(i)
        keyed_pop(o, f[0])
        return
    del o[i]


def vx_in(x, c):
    if isinstance(c, (dict,)) and _dict_symbolic(c, x):
        return dict_find(c, x) is not None
    if isinstance(c, (set, frozenset)) or type(c).__name__ in ("dict_keys",):
        if isinstance(x, SYM) or any(isinstance(i, SYM) for i in c):
            return dict_find(c, x) is not None
    if isinstance(c, (bytes, bytearray)) and isinstance(x, (SymInt, SymBytes)):
        if isinstance(x, SymInt):
            return bool(or_(*(x == b for b in set(c))))
        return x in to_sym(c) if False else to_sym(c).find(x) >= 0
    if isinstance(c, range) and isinstance(x, SymInt):
        if len(c) == 0:
            return False
        lo, hi = (c[0], c[-1]) if c.step > 0 else (c[-1], c[0])
        return bool((x >= lo) & (x <= hi) & ((x - c.start) % abs(c.step) == 0))
    if isinstance(c, (list, tuple)) and isinstance(x, (SymInt,)) and all(isinstance(i, (int, SymInt)) for i in c):
        return bool(or_(*(x == i for i in c)))
    if isinstance(c, str) and isinstance(x, SymStr):
        return concrete(x) in c
    return x in c


def _isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    flat = []
    for i in ts:
        flat.extend(i if isinstance(i, tuple) else (i,))
    if isinstance(x, SymInt):
        return any(i is int or i is object for i in flat) or any(isinstance(i, type) and i.__name__ == "Integral" for i in flat)
    if isinstance(x, SymBool):
        return any(i in (bool, int, object) for i in flat)
    if isinstance(x, SymBytes):
        kind = bytearray if isinstance(x, SymByteArray) else memoryview if isinstance(x, SymView) else bytes
        return any(i is kind or i is object for i in flat)
    if isinstance(x, (SymStr, SymText)):
        return any(i is str or i is object for i in flat)
    if isinstance(x, SymUUID):
        return any(i is uuid.UUID or i is object for i in flat)
    if isinstance(x, SymTime):
        import datetime

        return any(i is datetime.datetime or i is object for i in flat)
    return builtins.isinstance(x, t)


def _len(x):
    if isinstance(x, SymBytes):
        return x.n
    if hasattr(type(x), "__vx_static_len__"):
        return type(x).__vx_static_len__(x)
    return len(x)


def _int(x=0, base=None):
    if base is None:
        if isinstance(x, (SymInt,)):
            return x
        if isinstance(x, SymBool):
            return x.as_int()
        if isinstance(x, SymFrac):
            return x.trunc()
        if isinstance(x, (str, bytes, bytearray)):
            tok = numeral(x)
            if tok is not None:
                return tok
        if isinstance(x, (SymBytes, SymStr)):
            return _int_text(x)
        return int(x)
    if isinstance(x, (str, bytes)) and base in (0, 10):
        tok = numeral(x)
        if tok is not None:
            return tok
    if isinstance(x, (SymBytes, SymStr)) and concrete(base) == 10:
        return _int_text(x)
    return int(concrete(x), concrete(base))


def _int_text(x):
    """int() of symbolic ASCII text: an optional sign and decimal digits stay symbolic."""
    v = x.explicit() if isinstance(x, SymBytes) else x.v
    from vx.core import and_

    if v and and_(*(and_(c >= 48, c <= 57) for c in v)):
        out = 0
        for c in v:
            out = out * 10 + (c - 48)
        return out
    return int(concrete(x))


# Decimal numerals in generated text that stand for symbolic values
_numerals: dict[str, object] = {}


def numeral(x):
    if not _numerals:
        return None
    if isinstance(x, (bytes, bytearray)):
        try:
            x = bytes(x).decode("ascii")
        except UnicodeDecodeError:
            return None
    x = x.strip()
    if x.startswith("-"):
        v = _numerals.get(x[1:])
        return None if v is None else -v
    return _numerals.get(x)


def _bytes(*a, **k):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SymBytes):
            return SymBytes(x.segs) if isinstance(x, (SymByteArray, SymView)) else x
        if isinstance(x, SymInt):
            from vx.symbytes import repeat

            return repeat(b"\x00", x)
        if not isinstance(x, (bytes, bytearray, memoryview, int, str)) and not hasattr(x, "__bytes__"):
            x = list(x)
            if has_sym((x,)):
                from vx.symbytes import Vec

                return SymBytes([Vec(x)])
            return bytes(x)
    return bytes(*a, **k)


def _minmax(pick):
    def f(*args, key=None, default=_none):
        items = list(args[0]) if len(args) == 1 else list(args)
        if not items:
            if default is not _none:
                return default
            return pick(items)
        if key is None and all(isinstance(i, (int, SymInt)) for i in items) and not any(isinstance(i, bool) for i in items):
            best = items[0]
            for i in items[1:]:
                take = (i < best) if pick is min else (i > best)
                if take:
                    best = i
            return best
        best = items[0]
        kb = key(best) if key else best
        for i in items[1:]:
            ki = key(i) if key else i
            if (ki < kb) if pick is min else (ki > kb):
                best, kb = i, ki
        return best

    return f


_none = object()


def _unpack(fmt, data):
    s = fmt if isinstance(fmt, struct.Struct) else struct.Struct(fmt)
    data = simplify(data)
    if not isinstance(data, SymBytes):
        return s.unpack(data)
    n = data.n
    if not (n == s.size):
        raise struct.error(f"unpack requires a buffer of {s.size} bytes")
    return _unpack_from(s, data, 0)


def _unpack_from(fmt, data, offset=0):
    s = fmt if isinstance(fmt, struct.Struct) else struct.Struct(fmt)
    data = simplify(data)
    if not isinstance(data, SymBytes) and not isinstance(offset, SymInt):
        return s.unpack_from(data, offset)
    data = to_sym(data)
    if not (data.n - offset >= s.size):
        raise struct.error(f"unpack_from requires a buffer of at least {s.size} bytes")
    f = s.format
    order = "<" if sys.byteorder == "little" else ">"
    native = True
    if f[0] in "<>!=@":
        if f[0] in "<>":
            order = f[0]
        elif f[0] == "!":
            order = ">"
        native = f[0] == "@"
        f = f[1:]
    endian = "little" if order == "<" else "big"
    out, pos, count = [], 0, ""
    for ch in f:
        if ch.isdigit():
            count += ch
            continue
        if ch.isspace():
            continue
        k = int(count) if count else 1
        count = ""
        if ch == "s":
            out.append(data[offset + pos : offset + pos + k])
            pos += k
            continue
        if ch == "x":
            pos += k
            continue
        size = struct.calcsize(("@" if native else "=") + ch)
        for _ in range(k):
            if native and pos % size:
                pos += size - pos % size
            if ch == "c":
                out.append(data[offset + pos : offset + pos + 1])
            elif ch in "bBhHiIlLqQnN":
                v = data.uint(offset + pos, size, endian)
                out.append(signed(v, size) if ch.islower() else v)
            elif ch == "?":
                out.append(data.uint(offset + pos, 1, endian) != 0)
            else:
                raise Unsupported(f"struct code {ch}")
            pos += size
    return tuple(out)


def _iter_unpack(fmt, data):
    s = fmt if isinstance(fmt, struct.Struct) else struct.Struct(fmt)
    data = simplify(data)
    if not isinstance(data, SymBytes):
        return s.iter_unpack(data)
    n = len(data)
    if n % s.size:
        raise struct.error(f"iterative unpacking requires a buffer of a multiple of {s.size} bytes")
    return iter([_unpack_from(s, data, i) for i in range(0, n, s.size)])


def _str(*a, **k):
    if len(a) == 1 and not k:
        if isinstance(a[0], SymUUID):
            return SymText("uuid", a[0].raw)
        if isinstance(a[0], (SymStr, SymText)):
            return a[0]
        return str(a[0])
    if a and isinstance(a[0], SymBytes):
        return a[0].decode(*a[1:], **k)
    return str(*a, **k)


def _range(*a):
    if has_sym(a):
        if len(a) == 1 or (len(a) == 2 and not isinstance(a[0], SymInt)):
            return _symrange(a[0] if len(a) == 2 else 0, a[-1], 1)
        return _symrange(a[0], a[1], a[2] if len(a) > 2 else 1)
    return range(*a)


class _symrange:
    """A range with symbolic limits: iterates lazily, forking on the end condition."""

    def __init__(self, start, stop, step):
        self.start, self.stop = start, stop
        self.step = engine().concretize(step) if isinstance(step, SymInt) else step

    def __iter__(self):
        i = self.start
        while (i < self.stop) if self.step > 0 else (i > self.stop):
            vx_tick()
            yield i
            i = i + self.step

    def _n(self):
        d = self.stop - self.start if self.step > 0 else self.start - self.stop
        s = abs(self.step)
        n = (d + s - 1) // s
        return n if n > 0 else 0

    def __len__(self):
        return engine().concretize(self._n())

    __vx_static_len__ = _n

    def __getitem__(self, i):
        if isinstance(i, slice):
            return range(*(concrete(x) for x in (self.start, self.stop, self.step)))[i]
        n = self._n()
        if i < 0:
            i = i + n
        if not ((i >= 0) & (i < n)) if isinstance((i >= 0) & (i < n), SymBool) else not (0 <= i < n):
            raise IndexError("range object index out of range")
        return self.start + i * self.step

    def __contains__(self, x):
        if self.step == 1:
            return bool((x >= self.start) & (x < self.stop))
        return any(x == i for i in self)

    def __reversed__(self):
        return reversed(range(*(concrete(x) for x in (self.start, self.stop, self.step))))


def _bool(x=False):
    return bool(x)


def _sum(it, start=0):
    out = start
    for i in it:
        out = out + i
    return out


def _any(it):
    for i in it:
        if i:
            return True
    return False


def _all(it):
    for i in it:
        if not i:
            return False
    return True


def _pow(a, b, m=None):
    if m is None and isinstance(a, int) and not isinstance(b, SymInt):
        return pow(a, b)
    return pow(concrete(a), concrete(b), m)


def _hash(x):
    return hash(x)


def _set(it=()):
    """A set that keeps symbolic members distinct unless they are equal (forks)."""
    items = list(it)
    if not has_sym((items,)):
        return set(items)
    out = []
    for i in items:
        if not any(i is o or i == o for o in out):
            out.append(i)
    return _SymSet(out)


class _SymSet:
    def __init__(self, items):
        self.items = list(items)

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __contains__(self, x):
        return any(x == i for i in self.items)

    def add(self, x):
        if x not in self:
            self.items.append(x)

    def discard(self, x):
        self.items = [i for i in self.items if not i == x]

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def copy(self):
        return _SymSet(self.items)

    def union(self, *its):
        out = self.copy()
        out.update(*its)
        return out

    def intersection(self, other):
        other = list(other)
        return _SymSet([i for i in self.items if any(i == o for o in other)])

    def difference(self, other):
        other = list(other)
        return _SymSet([i for i in self.items if not any(i == o for o in other)])

    def issubset(self, other):
        other = list(other)
        return all(any(i == o for o in other) for i in self.items)

    def __or__(self, other):
        return self.union(other)

    __ror__ = __or__

    def __and__(self, other):
        return self.intersection(other)

    __rand__ = __and__

    def __sub__(self, other):
        return self.difference(other)

    def __rsub__(self, other):
        return _SymSet(other).difference(self)

    def __le__(self, other):
        return self.issubset(other)

    def __ge__(self, other):
        return _SymSet(other).issubset(self)

    def __eq__(self, other):
        return len(self) == len(other) and self.issubset(other)

    __hash__ = None

    def __bool__(self):
        return bool(self.items)


def _enum_call(cls, value):
    """Enum lookup by symbolic value: forks over the members."""
    for m in cls:
        if value == m.value:
            return m
    if getattr(cls, "_missing_", None) is not None and cls._missing_.__func__ is not enum.Enum._missing_.__func__:
        r = cls._missing_(value)
        if isinstance(r, cls):
            return r
    raise ValueError(f"{value!r} is not a valid {cls.__name__}")


def _bisect(fn):
    def f(a, x, lo=0, hi=None, *, key=None):
        if has_sym((x, lo, hi)) or has_sym((list(a),)) or key is not None:
            lo = concrete(lo)
            hi = len(a) if hi is None else concrete(hi)
            while lo < hi:
                mid = (lo + hi) // 2
                v = key(a[mid]) if key else a[mid]
                if fn is bisect_left:
                    if v < x:
                        lo = mid + 1
                    else:
                        hi = mid
                elif x < v:
                    hi = mid
                else:
                    lo = mid + 1
            return lo
        return fn(a, x, lo, len(a) if hi is None else hi)

    return f


def _enumerate_ok(*a, **k):
    return enumerate(*a, **k)


def _divmod(a, b):
    if isinstance(a, SymInt) or isinstance(b, SymInt):
        return a // b, a % b
    return divmod(a, b)


def _BytesIO(data=b""):
    if isinstance(data, SymBytes):
        return SymBytesIO(data)
    return io.BytesIO(data)


def _memoryview(x):
    if isinstance(x, SymByteArray):
        return SymView(x)
    return x if isinstance(x, SymBytes) else memoryview(x)


def _bytearray(*a):
    # never a real one, what is put into it later may be symbolic
    return SymByteArray(to_sym(_bytes(*a)).segs)


def _hex(x):
    return repr(x) if isinstance(x, SymInt) else hex(x)


def _uuid_call(*a, **k):
    return SymUUID.make(*a, **k)


def _list(it=()):
    if isinstance(it, SymBytes):
        return it.explicit()
    return list(it)


_TABLE = {
    isinstance: _isinstance,
    len: _len,
    int: _int,
    bytes: _bytes,
    bytearray: _bytearray,
    memoryview: _memoryview,
    min: _minmax(min),
    max: _minmax(max),
    str: _str,
    range: _range,
    sum: _sum,
    any: _any,
    all: _all,
    pow: _pow,
    set: _set,
    divmod: _divmod,
    hex: _hex,
    list: _list,
    bisect_left: _bisect(bisect_left),
    bisect_right: _bisect(bisect_right),
    struct.unpack: _unpack,
    struct.unpack_from: _unpack_from,
    struct.iter_unpack: _iter_unpack,
    io.BytesIO: _BytesIO,
    int.from_bytes: lambda b, byteorder="big", *, signed=False: from_bytes(b, byteorder, signed)
    if isinstance(b, SymBytes) or has_sym((list(b),))
    else int.from_bytes(b, byteorder, signed=signed),
}

_ALWAYS = {bytearray, isinstance, len, int, set, min, max, any, all, sum, list, range}


def _method(self, name, a, k):
    """A method of a concrete builtin object called with symbolic arguments."""
    if isinstance(self, (bytes, bytearray)):
        if name == "join":
            return join(bytes(self), a[0])
        return getattr(to_sym(self), name)(*a, **k)
    if isinstance(self, dict):
        if name == "get":
            f = dict_find(self, a[0])
            return keyed_get(self, f[0]) if f else (a[1] if len(a) > 1 else k.get("default"))
        if name == "setdefault":
            f = dict_find(self, a[0])
            if f:
                return keyed_get(self, f[0])
            v = a[1] if len(a) > 1 else None
            keyed_set(self, a[0], v)
            return v
        if name == "pop":
            f = dict_find(self, a[0])
            if f:
                return keyed_pop(self, f[0])
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
        if name in ("update", "__contains__", "__getitem__", "__setitem__"):
            if name == "__contains__":
                return dict_find(self, a[0]) is not None
            if name == "__getitem__":
                return vx_getitem(self, a[0])
            if name == "__setitem__":
                return vx_setitem(self, a[0], a[1])
    if isinstance(self, set) and name in ("add", "discard", "remove", "update"):
        for x in a if name != "update" else [x for it in a for x in it]:
            f = dict_find(self, x)
            core._keying.append(1)
            try:
                if name in ("add", "update"):
                    if f is None:
                        self.add(x)
                elif f is not None:
                    self.remove(f[0])
                elif name == "remove":
                    raise KeyError(x)
            finally:
                core._keying.pop()
        return None
    if isinstance(self, str):
        if name == "join":
            parts = list(a[0])
            if any(isinstance(p, SymStr) for p in parts):
                from vx.symbytes import to_symstr

                out = []
                for i, p in enumerate(parts):
                    if i:
                        out.extend(map(ord, self))
                    out.extend(to_symstr(p).v)
                return SymStr(out)
            return self.join(str(p) for p in parts)
        if name == "format":
            return self.format(*a, **k)
        return getattr(self, name)(*(concrete(x) for x in a), **k)
    if isinstance(self, re.Pattern) and (name in sre.METHODS or name == "sub"):
        return sre.method(self, name, a, k)
    if isinstance(self, struct.Struct):
        if name == "unpack":
            return _unpack(self, *a)
        if name == "unpack_from":
            return _unpack_from(self, *a, **k)
        if name == "iter_unpack":
            return _iter_unpack(self, *a)
    return _none


_caches = {}


def _cached(f, a, k):
    """A call of a function with a least recently used cache; the cache is that of the current path."""
    _, entries = _caches.setdefault(id(f), (f, []))
    for i, (a2, k2, value) in enumerate(entries):
        if len(a) == len(a2) and k.keys() == k2.keys():
            pairs = [*zip(a, a2), *((k[n], k2[n]) for n in k)]
            if all(x is y or x == y for x, y in pairs):
                entries.append(entries.pop(i))
                return value
    value = vx_call(f.__wrapped__, *a, **k)
    entries.append((a, k, value))
    size = f.cache_parameters()["maxsize"]
    if size is not None and len(entries) > size:
        entries.pop(0)
    return value


def vx_call(f, /, *a, **k):
    if type(f) is types.BuiltinMethodType and type(f.__self__) is list and f.__name__ == "append":
        return f(*a)
    if type(f) is functools._lru_cache_wrapper:
        return _cached(f, a, k)
    if type(f) is types.MethodType and type(f.__func__) is functools._lru_cache_wrapper:
        return _cached(f.__func__, (f.__self__, *a), k)
    try:
        h = _TABLE.get(f)
    except TypeError:
        h = None
    if h is not None:
        if f in _ALWAYS or has_sym(a) or has_sym(k.values()):
            return h(*a, **k)
        return f(*a, **k)
    if f is ast.literal_eval and len(a) == 1 and isinstance(a[0], (str, SymStr)):
        return sre.literal_eval(a[0], _numerals)
    sym = has_sym(a) or (k and has_sym(k.values()))
    self = getattr(f, "__self__", None)
    if self is not None and isinstance(self, (bytes, bytearray)) and getattr(f, "__name__", "") == "join":
        return join(bytes(self), *a)
    if self is not None and isinstance(self, str) and getattr(f, "__name__", "") == "join" and a and not isinstance(a[0], str):
        parts = list(a[0])
        if has_sym((parts,)):
            return _method(self, "join", (parts,), k)
        return self.join(parts)
    if isinstance(self, dict) and getattr(f, "__name__", "") in ("get", "setdefault", "pop") and a:
        if _dict_symbolic(self, a[0]):
            return _method(self, f.__name__, a, k)
    if isinstance(self, set) and a and getattr(f, "__name__", "") in ("add", "discard", "remove", "update"):
        if sym or any(isinstance(x, SYM) for x in self):
            return _method(self, f.__name__, a, k)
    if isinstance(self, dict) and getattr(f, "__name__", "") == "update":
        for key, v in dict(*a, **k).items() if not a or not isinstance(a[0], dict) else (*a[0].items(), *k.items()):
            vx_setitem(self, key, v)
        return None
    if not sym:
        return f(*a, **k)
    if f is uuid.UUID:
        return SymUUID.make(*a, **k)
    if isinstance(f, type) and issubclass(f, enum.Enum) and len(a) == 1 and isinstance(a[0], (SymInt, SymBytes, SymStr)):
        return _enum_call(f, a[0])
    if self is not None and not isinstance(self, type(sys)):
        r = NotImplemented
        if type(f).__name__ in ("builtin_function_or_method", "method-wrapper"):
            r = _method(self, f.__name__, a, k)
            if r is not _none:
                return r
            if isinstance(self, (list, set, dict, tuple)) or type(self).__module__ in ("_io", "_thread", "collections"):
                return f(*a, **k)
    if isinstance(f, types.FunctionType) and f in _RE:
        return sre.function(_RE[f], *a, **k)
    special = _special(f)
    if special is not None:
        return special(*a, **k)
    if type(f).__name__ == "builtin_function_or_method" and f not in _NATIVE_OK:
        # A C function that does not know symbolic values: fork over their values
        eng = engine()
        eng.stats.setdefault("c_calls", 0)
        eng.stats["c_calls"] += 1
        return f(*(concrete(x) for x in a), **{n: concrete(v) for n, v in k.items()})
    return f(*a, **k)


_NATIVE_OK = {
    iter,
    next,
    enumerate,
    zip,
    map,
    filter,
    sorted,
    reversed,
    getattr,
    setattr,
    hasattr,
    print,
    repr,
    id,
    type,
    callable,
    abs,
    tuple,
    dict,
    frozenset,
    format,
    itertools.chain,
    operator.add,
    operator.sub,
    operator.mul,
    operator.floordiv,
    operator.mod,
    operator.lt,
    operator.le,
    operator.gt,
    operator.ge,
    operator.eq,
    operator.ne,
    operator.and_,
    operator.or_,
    operator.not_,
    operator.truth,
    operator.index,
}

_SPECIAL = {}

_RE = {getattr(re, n): n for n in ("match", "fullmatch", "search", "finditer", "findall", "split", "sub")}


def _special(f):
    mod = getattr(f, "__module__", None)
    name = getattr(f, "__qualname__", None)
    if mod == "dissect.util.ts":
        return _SPECIAL.get(("ts", name))
    if name in ("datetime.fromtimestamp", "datetime.utcfromtimestamp"):
        return lambda t, tz=None: SymTime(t * 1000000)
    return None


def _ts_from(mult_num, mult_den=1, epoch_us=0):
    def f(v):
        if isinstance(v, SymFrac):
            return SymTime(v.num * mult_num // (v.den * mult_den) + epoch_us)
        us = v * mult_num
        if mult_den != 1:
            us = us // mult_den
        return SymTime(us + epoch_us)

    return f


_SPECIAL[("ts", "from_unix")] = _ts_from(1000000)
_SPECIAL[("ts", "from_unix_ms")] = _ts_from(1000)
_SPECIAL[("ts", "from_unix_us")] = _ts_from(1)
_SPECIAL[("ts", "from_unix_ns")] = _ts_from(1, 1000)
_SPECIAL[("ts", "wintimestamp")] = _ts_from(1, 10, -11644473600 * 1000000)


# -- import machinery --------------------------------------------------------------------

PREFIXES = ("dissect.volume", "dissect.util.stream")


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as fh:
            source = fh.read()
        tree = ast.parse(source, path)
        tree = Rewriter(fullname).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        g = module.__dict__
        g["__vx_call__"] = vx_call
        g["__vx_in__"] = vx_in
        g["__vx_getitem__"] = vx_getitem
        g["__vx_setitem__"] = vx_setitem
        g["__vx_delitem__"] = vx_delitem
        g["__vx_dict__"] = vx_dict
        g["__vx_set__"] = vx_set
        g["__vx_slice__"] = slice
        g["__vx_tick__"] = vx_tick
        g["__vx_fn__"] = vx_fn
        super().exec_module(module)
        if module.__name__ == "dissect.util.stream" and not RAW_STREAMS:
            _summarise(module)
        _remember(module)


# What modules, classes and default arguments hold when they have just been loaded.
_initial = []
_owners = []
_CONTAINERS = (dict, list, set, bytearray)


def _remember(module):
    def contents(v):
        return copy.copy(v) if type(v) in _CONTAINERS or isinstance(v, (SymByteArray, _SymSet)) else None

    def attributes(owner, names):
        _owners.append((owner, {n for n, _ in names}))
        for n, v in names:
            if not n.startswith("__"):
                _initial.append((owner, n, v, contents(v)))
                functions(v)

    def functions(v):
        v = getattr(v, "__wrapped__", v)
        v = getattr(v, "__func__", v)
        if isinstance(v, types.FunctionType) and v.__module__ == module.__name__:
            for d in (*(v.__defaults__ or ()), *(v.__kwdefaults__ or {}).values()):
                if type(d) in _CONTAINERS:
                    _initial.append((None, None, d, copy.copy(d)))

    for n, v in list(vars(module).items()):
        if isinstance(v, type) and v.__module__ == module.__name__ and not issubclass(v, enum.Enum):
            attributes(v, list(vars(v).items()))
    attributes(module, list(vars(module).items()))


def restore():
    """Forget what the previous path left behind in modules, classes, default arguments and caches."""
    _caches.clear()
    for owner, names in _owners:
        if len(vars(owner)) > len(names):
            for n, v in list(vars(owner).items()):
                if n not in names and not n.startswith("__") and not isinstance(v, types.ModuleType):
                    delattr(owner, n)
    for owner, name, value, contents in _initial:
        if owner is not None and vars(owner).get(name, _none) is not value:
            setattr(owner, name, value)
        if contents is None:
            continue
        if type(value) is dict or type(value) is set:
            if len(value) != len(contents) or type(value) is dict:
                value.clear()
                value.update(contents)
        elif type(value) in (list, bytearray):
            value[:] = contents
        else:
            value.__dict__.update(copy.copy(contents).__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if not any(fullname == p or fullname.startswith(p + ".") for p in PREFIXES):
            return None
        for finder in sys.meta_path:
            if finder is self or not hasattr(finder, "find_spec"):
                continue
            spec = finder.find_spec(fullname, path, target)
            if spec is not None:
                break
        else:
            return None
        if spec.loader is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = _Loader(fullname, spec.origin)
        return spec


RAW_STREAMS = False
"""Run the buffering of the leaf streams as written instead of through its contract."""


def _summarise(module):
    """Contract of the buffered leaf streams of dissect.util.

    RangeStream, MappingStream and RunlistStream have a ``_read`` that takes any offset
    and length; the alignment buffer in front of it is transparent.  Reading through
    ``_read`` directly keeps one path where the buffer would make dozens.  Jobs with
    ``raw`` set run the buffer as written and so discharge the contract.
    """

    def _set_pos(self, pos):
        self._pos = pos

    def read(self, n=-1):
        if n is not None and n < -1:
            raise ValueError("invalid number of bytes to read")
        if self.size is None:
            buf = self._read(self._pos, n)
        else:
            remaining = self.size - self._pos
            if remaining <= 0:
                return b""
            if n == -1 or n > remaining:
                n = remaining
            if n == 0:
                return b""
            buf = self._read(self._pos, n)
        self._pos = self._pos + vx_call(len, buf)
        return buf

    for cls in (module.RangeStream, module.MappingStream, module.RunlistStream):
        cls._set_pos = _set_pos
        cls.read = read


def install():
    if any(isinstance(f, _Finder) for f in sys.meta_path):
        return
    sys.meta_path.insert(0, _Finder())
    from vx import cs

    cs.install()
