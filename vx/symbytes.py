"""Symbolic byte strings, text and files.

A byte string is a list of segments; a segment is a run of a symbolic file
(``Ref``), a run of explicit bytes, each possibly symbolic (``Vec``), or a
constant fill of symbolic length (``Fill``).  A file is a set of *regions* of
symbolic bytes at known (possibly symbolic) positions on top of an opaque
background, so both metadata and bulk data can be read at symbolic offsets.
"""

from __future__ import annotations

import io
import math
import uuid as _uuid

import z3

from vx.core import (
    Atom,
    Bound,
    Control,
    SymBool,
    SymInt,
    Unsupported,
    _key,
    _memo,
    and_,
    engine,
    ite,
    not_,
    var,
    or_,
)


class WriteAttempt(Control):
    """The code under test tried to modify a source it was given for reading."""


class Ref:
    __slots__ = ("file", "n", "off")

    def __init__(self, file, off, n):
        self.file, self.off, self.n = file, off, n

    def byte(self, i):
        return self.file.byte(self.off + i)

    def cut(self, a, b):
        return Ref(self.file, self.off + a, b - a)


class Vec:
    __slots__ = ("n", "v")

    def __init__(self, v):
        self.v = v
        self.n = len(v)

    def byte(self, i):
        if isinstance(i, SymInt):
            i = engine().concretize(i)
        return self.v[i]

    def cut(self, a, b):
        a, b = (engine().concretize(x) if isinstance(x, SymInt) else x for x in (a, b))
        return Vec(self.v[a:b])


class Fill:
    __slots__ = ("b", "n")

    def __init__(self, b, n):
        self.b, self.n = b, n

    def byte(self, i):
        return self.b

    def cut(self, a, b):
        return Fill(self.b, b - a)


def repeat(unit, n):
    """``unit * n`` for a symbolic count."""
    if n <= 0:
        return b""
    if len(unit) == 1:
        return SymBytes([Fill(unit[0], n)])
    if not len(unit):
        return b""
    return bytes(unit) * engine().concretize(n)


def to_sym(data):
    if isinstance(data, SymBytes):
        return data
    data = bytes(data)
    if len(data) > 64 and data.count(data[0]) == len(data):
        return SymBytes([Fill(data[0], len(data))])
    return SymBytes([Vec(data)] if data else [])


def is_bytes(x):
    return isinstance(x, (bytes, bytearray, memoryview, SymBytes))


def simplify(b):
    """A plain ``bytes`` when every byte is concrete."""
    if not isinstance(b, SymBytes):
        return b
    out = []
    for s in b.segs:
        if isinstance(s, Vec):
            if isinstance(s.v, bytes):
                out.append(s.v)
            elif all(isinstance(x, int) for x in s.v):
                out.append(bytes(s.v))
            else:
                return b
        elif isinstance(s, Fill) and isinstance(s.n, int) and isinstance(s.b, int) and s.n <= 65536:
            out.append(bytes([s.b]) * s.n)
        else:
            return b
    return b"".join(out)


def join(sep, parts):
    parts = list(parts)
    if not any(isinstance(p, SymBytes) for p in parts) and not isinstance(sep, SymBytes):
        return sep.join(parts)
    out = []
    for i, p in enumerate(parts):
        if i and len(sep):
            out.extend(to_sym(sep).segs)
        if not is_bytes(p):
            raise TypeError(f"sequence item {i}: expected a bytes-like object, {type(p).__name__} found")
        out.extend(to_sym(p).segs)
    return simplify(SymBytes(out))


WS = b" \t\n\r\x0b\x0c"


class SymBytes:
    __slots__ = ("_n", "segs")

    def __init__(self, segs):
        self.segs = [s for s in segs if not (isinstance(s.n, int) and s.n == 0)]
        self._n = None

    @property
    def n(self):
        if self._n is None:
            n = 0
            for s in self.segs:
                n = n + s.n
            self._n = n
        return self._n

    def __len__(self):
        n = self.n
        return engine().concretize(n) if isinstance(n, SymInt) else n

    def __bool__(self):
        return bool(self.n != 0)

    def __repr__(self):
        return f"<symbytes n={self.n}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        return 0x5EED

    # -- access --------------------------------------------------------------------
    def locate(self, i):
        """The segment holding index ``i`` and the index within it (forks on segment boundaries)."""
        pos = 0
        last = len(self.segs) - 1
        for k, s in enumerate(self.segs):
            if k == last or i < pos + s.n:
                return s, i - pos
            pos = pos + s.n
        raise IndexError("index out of range")

    def byte(self, i):
        s, j = self.locate(i)
        return s.byte(j)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        n = self.n
        if i < 0:
            i = i + n
        if not and_(i >= 0, i < n):
            raise IndexError("index out of range")
        return self.byte(i)

    def _slice(self, sl):
        step = sl.step
        if isinstance(step, SymInt):
            step = engine().concretize(step)
        if step not in (None, 1):
            v = self.explicit()
            a = engine().concretize(sl.start) if isinstance(sl.start, SymInt) else sl.start
            b = engine().concretize(sl.stop) if isinstance(sl.stop, SymInt) else sl.stop
            return simplify(SymBytes([Vec(v[a:b:step])]))
        n = self.n

        def norm(x, default):
            if x is None:
                return default
            if x < 0:
                x = x + n
                return x if x >= 0 else 0
            return x if x <= n else n

        a, b = norm(sl.start, 0), norm(sl.stop, n)
        if a >= b:
            return b""
        out = []
        pos = 0
        for s in self.segs:
            end = pos + s.n
            if a >= end:
                pos = end
                continue
            lo = a - pos if a > pos else 0
            if b <= end:
                out.append(s.cut(lo, b - pos))
                break
            out.append(s.cut(lo, s.n))
            pos = end
        return simplify(SymBytes(out))

    def explicit(self):
        """A list with one (possibly symbolic) value per byte."""
        out = []
        for s in self.segs:
            if isinstance(s, Vec):
                out.extend(s.v)
                continue
            n = engine().concretize(s.n) if isinstance(s.n, SymInt) else s.n
            if n > 70000:
                raise Bound("explicit view of a very long symbolic byte string")
            out.extend(s.byte(i) for i in range(n))
        return out

    def __iter__(self):
        return iter(self.explicit())

    def __reversed__(self):
        return reversed(self.explicit())

    def uint(self, off, size, endian):
        """The unsigned integer stored at ``off`` (endian is 'little' or 'big')."""
        s, j = self.locate(off)
        if isinstance(s, Ref) and (j + size <= s.n) is True:
            return s.file.uint(s.off + j, size, endian)
        if isinstance(s, Ref) and len(self.segs) == 1:
            return s.file.uint(s.off + j, size, endian)
        vals = [self.byte(off + i) for i in range(size)]
        return compose(vals, endian)

    # -- comparison ----------------------------------------------------------------
    def __eq__(self, o):
        if not is_bytes(o):
            return False
        o = to_sym(o)
        n, m = self.n, o.n
        same_len = n == m
        if same_len is False:
            return False
        if isinstance(n, SymInt) or isinstance(m, SymInt):
            if not same_len:
                return False
            k = m if not isinstance(m, SymInt) else n
            if isinstance(k, SymInt):
                if [(_seg_id(s)) for s in self.segs] == [(_seg_id(s)) for s in o.segs]:
                    return True
                k = engine().concretize(k)
            n = k
        a, b = self[:n], o[:n]
        av, bv = (to_sym(a).explicit() if n else []), (to_sym(b).explicit() if n else [])
        return and_(*(x == y for x, y in zip(av, bv)))

    def __ne__(self, o):
        return not_(self == o)

    def __lt__(self, o):
        return concrete(self) < concrete(o)

    def __gt__(self, o):
        return concrete(self) > concrete(o)

    def __contains__(self, x):
        if isinstance(x, (int, SymInt)):
            for b in self.explicit():
                if b == x:
                    return True
            return False
        return bool(self.find(x) >= 0)

    # -- building --------------------------------------------------------------------
    def __add__(self, o):
        if not is_bytes(o):
            return NotImplemented
        return simplify(SymBytes(self.segs + to_sym(o).segs))

    def __radd__(self, o):
        if not is_bytes(o):
            return NotImplemented
        return simplify(SymBytes(to_sym(o).segs + self.segs))

    def __mul__(self, k):
        if isinstance(k, SymInt):
            k = engine().concretize(k)
        return simplify(SymBytes(self.segs * max(k, 0)))

    __rmul__ = __mul__

    # -- bytes API -------------------------------------------------------------------
    def join(self, parts):
        return join(self, parts)

    def tobytes(self):
        return self

    def find(self, sub, start=0, end=None):
        v = self.explicit()
        sub = [sub] if isinstance(sub, (int, SymInt)) else to_sym(sub).explicit()
        start = engine().concretize(start)
        end = len(v) if end is None else min(engine().concretize(end), len(v))
        for i in range(start, end - len(sub) + 1):
            if and_(*(x == y for x, y in zip(v[i:], sub))):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        v = self.explicit()
        sub = [sub] if isinstance(sub, (int, SymInt)) else to_sym(sub).explicit()
        end = len(v) if end is None else min(engine().concretize(end), len(v))
        for i in range(end - len(sub), engine().concretize(start) - 1, -1):
            if and_(*(x == y for x, y in zip(v[i:], sub))):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("subsection not found")
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError("subsection not found")
        return i

    def count(self, sub, *a):
        n, i = 0, 0
        m = 1 if isinstance(sub, (int, SymInt)) else len(sub)
        while (i := self.find(sub, i)) >= 0:
            n += 1
            i += m
        return n

    def startswith(self, p, start=0):
        if isinstance(p, tuple):
            for q in p:
                if self.startswith(q, start):
                    return True
            return False
        m = len(p)
        if not (self.n >= m + start):
            return False
        return to_sym(self[start : start + m]) == p

    def endswith(self, p):
        if isinstance(p, tuple):
            for q in p:
                if self.endswith(q):
                    return True
            return False
        m = len(p)
        if m == 0:
            return True
        if not (self.n >= m):
            return False
        return to_sym(self[self.n - m :]) == p

    def split(self, sep=None, maxsplit=-1):
        v = self.explicit()
        if sep is None:
            return _split_ws(v, maxsplit, lambda x: _in_set(x, WS), lambda x: simplify(SymBytes([Vec(x)])))
        return _split(v, to_sym(sep).explicit(), maxsplit, lambda x: simplify(SymBytes([Vec(x)])))

    def rsplit(self, sep=None, maxsplit=-1):
        v = self.explicit()
        if sep is None:
            return _rsplit_ws(v, maxsplit, lambda x: _in_set(x, WS), lambda x: simplify(SymBytes([Vec(x)])))
        return _rsplit(v, to_sym(sep).explicit(), maxsplit, lambda x: simplify(SymBytes([Vec(x)])))

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, b"", b""
        return self[:i], sep, self[i + len(sep) :]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return b"", b"", self
        return self[:i], sep, self[i + len(sep) :]

    def splitlines(self, keepends=False):
        return concrete(self).splitlines(keepends)

    def rstrip(self, chars=None):
        v = self.explicit()
        chars = WS if chars is None else chars
        cs = to_sym(chars).explicit()
        n = len(v)
        while n and _in_set(v[n - 1], cs):
            n -= 1
        return self[:n]

    def lstrip(self, chars=None):
        v = self.explicit()
        chars = WS if chars is None else chars
        cs = to_sym(chars).explicit()
        n = 0
        while n < len(v) and _in_set(v[n], cs):
            n += 1
        return self[n:]

    def strip(self, chars=None):
        r = self.rstrip(chars)
        return r.lstrip(chars) if chars is not None else r.lstrip()

    def lower(self):
        return simplify(SymBytes([Vec([_case(x, 65, 90, 32) for x in self.explicit()])]))

    def upper(self):
        return simplify(SymBytes([Vec([_case(x, 97, 122, -32) for x in self.explicit()])]))

    def isdigit(self):
        v = self.explicit()
        return bool(v) and bool(and_(*(and_(x >= 48, x <= 57) for x in v)))

    def isspace(self):
        v = self.explicit()
        return bool(v) and all(bool(_in_set(x, WS)) for x in v)

    def hex(self, *a):
        if a:
            return concrete(self).hex(*a)
        return SymText("hex", self)

    def decode(self, encoding="utf-8", errors="strict"):
        return decode(self, encoding, errors)

    def replace(self, a, b, *c):
        parts = self.split(a)
        return join(b, parts)

    def removesuffix(self, s):
        return self[: self.n - len(s)] if len(s) and self.endswith(s) else self

    def removeprefix(self, s):
        return self[len(s) :] if self.startswith(s) else self

    def ljust(self, n, fill=b" "):
        m = len(self)
        return self + fill * max(0, n - m)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(bytes, name):
            return getattr(concrete(self), name)
        if hasattr(bytearray, name) or hasattr(memoryview, name):
            raise Unsupported(f"bytes.{name} on a symbolic value")
        raise AttributeError(f"'bytes' object has no attribute {name!r}")


class SymByteArray(SymBytes):
    """A ``bytearray``."""

    __slots__ = ()

    def _assign(self, a, b, data):
        frozen = SymBytes(self.segs)
        out = join(b"", [frozen[:a], to_sym(data), frozen[b:]])
        self.segs, self._n = list(to_sym(out).segs), None

    def _bounds(self, i, size=None):
        n = self.n
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("stepped slice assignment")
            a, b = (d if x is None else x for x, d in ((i.start, 0), (i.stop, n)))
            a, b = (x + n if x < 0 else x for x in (a, b))
            a, b = (x if x <= n else n for x in (a, b))
            if not and_(a >= 0, a <= b):
                raise Unsupported("slice assignment out of order")
            return a, b
        i = i + n if i < 0 else i
        if not and_(i >= 0, i < n):
            raise IndexError("bytearray index out of range")
        return i, i + 1

    def __setitem__(self, i, data):
        a, b = self._bounds(i)
        self._assign(a, b, _content(data) if isinstance(i, slice) else SymBytes([Vec([data])]))

    def __delitem__(self, i):
        self._assign(*self._bounds(i), b"")

    def __iadd__(self, data):
        self._assign(self.n, self.n, _content(data))
        return self

    def extend(self, data):
        self += data

    def append(self, x):
        self += SymBytes([Vec([x])])

    def clear(self):
        self._assign(0, self.n, b"")

    def copy(self):
        return SymByteArray(self.segs)


class SymView(SymBytes):
    """A ``memoryview`` of a ``bytearray``: shows and changes the content of that."""

    __slots__ = ("base", "lo")

    def __init__(self, base, lo=0, n=None):
        self.base, self.lo = base, lo
        self._n = base.n if n is None else n

    @property
    def segs(self):
        return to_sym(SymBytes(self.base.segs)[self.lo : self.lo + self._n]).segs

    def _slice(self, sl):
        if sl.step not in (None, 1):
            return super()._slice(sl)
        a, b = SymByteArray._bounds(self, sl)
        return SymView(self.base, self.lo + a, b - a)

    def __setitem__(self, i, data):
        a, b = SymByteArray._bounds(self, i)
        data = _content(data) if isinstance(i, slice) else SymBytes([Vec([data])])
        if not to_sym(data).n == b - a:
            raise ValueError("memoryview assignment: lvalue and rvalue have different structures")
        self.base._assign(self.lo + a, self.lo + b, data)

    def tobytes(self):
        return SymBytes(self.segs)

    def release(self):
        pass


def _content(data):
    if is_bytes(data):
        return SymBytes(data.segs) if isinstance(data, SymBytes) else bytes(data)
    return SymBytes([Vec(list(data))])


def _seg_id(s):
    if isinstance(s, Ref):
        return ("r", id(s.file), _norm(s.off), _norm(s.n))
    if isinstance(s, Fill):
        return ("f", _norm(s.b), _norm(s.n))
    return ("v", tuple(_norm(x) for x in s.v))


def _norm(x):
    return _key(x.t, x.c) if isinstance(x, SymInt) else x


def _in_set(x, chars):
    return or_(*(x == c for c in chars))


def _case(x, lo, hi, d):
    return ite(and_(x >= lo, x <= hi), x + d, x)


def _split(v, sep, maxsplit, wrap):
    if not sep:
        raise ValueError("empty separator")
    out, start, i = [], 0, 0
    while i + len(sep) <= len(v) and (maxsplit < 0 or len(out) < maxsplit):
        if and_(*(x == y for x, y in zip(v[i:], sep))):
            out.append(wrap(v[start:i]))
            i += len(sep)
            start = i
        else:
            i += 1
    out.append(wrap(v[start:]))
    return out


def _rsplit(v, sep, maxsplit, wrap):
    parts = [p[::-1] for p in _split(v[::-1], sep[::-1], maxsplit, lambda x: x)]
    return [wrap(p) for p in parts[::-1]]


def _rsplit_ws(v, maxsplit, isws, wrap):
    parts = [p[::-1] for p in _split_ws(v[::-1], maxsplit, isws, lambda x: x)]
    return [wrap(p) for p in parts[::-1]]


def _split_ws(v, maxsplit, isws, wrap):
    out, i, n = [], 0, len(v)
    while True:
        while i < n and isws(v[i]):
            i += 1
        if i >= n:
            return out
        if maxsplit >= 0 and len(out) >= maxsplit:
            while n > i and isws(v[n - 1]):
                n -= 1
            out.append(wrap(v[i:n]))
            return out
        j = i
        while j < n and not isws(v[j]):
            j += 1
        out.append(wrap(v[i:j]))
        i = j


def compose(vals, endian):
    """The unsigned integer with the given byte values."""
    if endian == "big":
        vals = vals[::-1]
    out = 0
    for i, b in enumerate(vals):
        out = out + b * (1 << (8 * i))
    return out


def signed(v, size):
    if isinstance(v, SymInt):
        return ite(v >= (1 << (8 * size - 1)), v - (1 << (8 * size)), v)
    return v - (1 << (8 * size)) if v >= (1 << (8 * size - 1)) else v


def from_bytes(data, byteorder="big", signed_=False):
    if isinstance(data, SymBytes):
        n = len(data)
        v = data.uint(0, n, byteorder) if n else 0
    else:
        v = compose(list(data), byteorder)
        n = len(list(data))
    return signed(v, n) if signed_ and n else v


def concrete(x):
    """Fork until ``x`` is a plain Python object."""
    if isinstance(x, SymInt):
        return engine().concretize(x)
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymBytes):
        return bytes(engine().concretize(b) if isinstance(b, SymInt) else b for b in x.explicit())
    if isinstance(x, SymStr):
        return "".join(chr(engine().concretize(b) if isinstance(b, SymInt) else b) for b in x.v)
    if isinstance(x, SymUUID):
        return _uuid.UUID(bytes=concrete(x.raw))
    if isinstance(x, SymText):
        b = concrete(x.raw)
        return b.hex() if x.kind == "hex" else str(_uuid.UUID(bytes=b))
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(concrete(i) for i in x)
    if type(x) is list:
        return [concrete(i) for i in x]
    if type(x) is dict:
        return {concrete(k): concrete(v) for k, v in x.items()}
    return x


# -- text ------------------------------------------------------------------------------


def decode(b, encoding="utf-8", errors="strict"):
    enc = encoding.lower().replace("_", "-")
    v = b.explicit()
    if enc in ("utf-16-le", "utf-16le", "utf-16-be", "utf-16be"):
        if len(v) % 2:
            return concrete(b).decode(encoding, errors)
        le = enc.endswith("le")
        units = [compose(v[i : i + 2], "little" if le else "big") for i in range(0, len(v), 2)]
        if and_(*((u < 0xD800) | (u > 0xDFFF) for u in units)):
            return simplify_str(SymStr(units))
        return concrete(b).decode(encoding, errors)
    if enc in ("latin-1", "latin1", "iso-8859-1", "iso8859-1"):
        return simplify_str(SymStr(v))
    if enc in ("utf-8", "utf8", "ascii", "us-ascii"):
        if and_(*(x < 0x80 for x in v)):
            return simplify_str(SymStr(v))
        return concrete(b).decode(encoding, errors)
    return concrete(b).decode(encoding, errors)


def simplify_str(s):
    if all(isinstance(x, int) for x in s.v):
        return "".join(map(chr, s.v))
    return s


def to_symstr(s):
    return s if isinstance(s, SymStr) else SymStr([ord(c) for c in s])


SWS = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"


class SymStr:
    """Text with explicit length and possibly symbolic characters."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = list(v)

    def __len__(self):
        return len(self.v)

    def __bool__(self):
        return bool(self.v)

    def __hash__(self):
        return 0x57E

    def __repr__(self):
        return f"<symstr n={len(self.v)}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __eq__(self, o):
        if isinstance(o, str):
            o = to_symstr(o)
        if not isinstance(o, SymStr) or len(o.v) != len(self.v):
            return False
        return and_(*(x == y for x, y in zip(self.v, o.v)))

    def __ne__(self, o):
        return not_(self == o)

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*(engine().concretize(x) if isinstance(x, SymInt) else x for x in (i.start, i.stop, i.step)))
            return simplify_str(SymStr(self.v[i]))
        if isinstance(i, SymInt):
            i = engine().concretize(i)
        return simplify_str(SymStr([self.v[i]]))

    def __iter__(self):
        return (simplify_str(SymStr([x])) for x in self.v)

    def __add__(self, o):
        return SymStr(self.v + to_symstr(o).v)

    def __radd__(self, o):
        return SymStr(to_symstr(o).v + self.v)

    def _span(self, start, end):
        n = len(self.v)
        start, end, _ = slice(engine().concretize(start), engine().concretize(end)).indices(n)
        return start, end

    def find(self, sub, start=None, end=None):
        sub = to_symstr(sub).v
        start, end = self._span(start, end)
        for i in range(start, end - len(sub) + 1):
            if and_(*(x == y for x, y in zip(self.v[i:], sub))):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = to_symstr(sub).v
        start, end = self._span(start, end)
        for i in range(end - len(sub), start - 1, -1):
            if and_(*(x == y for x, y in zip(self.v[i:], sub))):
                return i
        return -1

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub):
        n, i = 0, 0
        while (i := self.find(sub, i)) >= 0:
            n += 1
            i += len(sub)
        return n

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return or_(*(self.startswith(q, start, end) for q in p))
        start, end = self._span(start, end)
        return end - start >= len(p) and SymStr(self.v[start : start + len(p)]) == p

    def endswith(self, p):
        if isinstance(p, tuple):
            return or_(*(self.endswith(q) for q in p))
        return not len(p) or (len(self.v) >= len(p) and SymStr(self.v[-len(p) :]) == p)

    def split(self, sep=None, maxsplit=-1):
        wrap = lambda x: simplify_str(SymStr(x))  # noqa: E731
        if sep is None:
            return _split_ws(self.v, maxsplit, lambda x: _in_set(x, map(ord, SWS)), wrap)
        return _split(self.v, to_symstr(sep).v, maxsplit, wrap)

    def rsplit(self, sep=None, maxsplit=-1):
        wrap = lambda x: simplify_str(SymStr(x))  # noqa: E731
        if sep is None:
            return _rsplit_ws(self.v, maxsplit, lambda x: _in_set(x, map(ord, SWS)), wrap)
        return _rsplit(self.v, to_symstr(sep).v, maxsplit, wrap)

    def splitlines(self, keepends=False):
        if or_(*(_in_set(x, (10, 11, 12, 13, 0x1C, 0x1D, 0x1E, 0x85, 0x2028, 0x2029)) for x in self.v if not isinstance(x, int))):
            return concrete(self).splitlines(keepends)
        text = "".join(chr(x) if isinstance(x, int) else "x" for x in self.v)
        out, i = [], 0
        for line in text.splitlines(True):
            n = len(line) if keepends else len(line.splitlines()[0])
            out.append(simplify_str(SymStr(self.v[i : i + n])))
            i += len(line)
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, "", ""
        return self[:i], sep, self[i + len(sep) :]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", self
        return self[:i], sep, self[i + len(sep) :]

    def replace(self, a, b, count=-1):
        out = []
        for i, p in enumerate(self.split(a, count)):
            out += to_symstr(b).v if i else []
            out += to_symstr(p).v
        return simplify_str(SymStr(out))

    def removeprefix(self, p):
        return self[len(p) :] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[: len(self.v) - len(p)] if len(p) and self.endswith(p) else self

    def _ascii(self):
        return bool(and_(*(x < 0x80 for x in self.v)))

    def lower(self):
        if not self._ascii():
            return concrete(self).lower()
        return simplify_str(SymStr([_case(x, 65, 90, 32) for x in self.v]))

    def upper(self):
        if not self._ascii():
            return concrete(self).upper()
        return simplify_str(SymStr([_case(x, 97, 122, -32) for x in self.v]))

    def casefold(self):
        if not self._ascii():
            return concrete(self).casefold()
        return self.lower()

    def isdigit(self):
        if not self._ascii():
            return concrete(self).isdigit()
        return bool(self.v) and bool(and_(*(and_(x >= 48, x <= 57) for x in self.v)))

    def isspace(self):
        return bool(self.v) and bool(and_(*(_in_set(x, map(ord, SWS)) for x in self.v)))

    def isascii(self):
        return self._ascii()

    def __mul__(self, n):
        return simplify_str(SymStr(self.v * engine().concretize(n)))

    __rmul__ = __mul__

    def rstrip(self, chars=None):
        cs = to_symstr(SWS if chars is None else chars).v
        n = len(self.v)
        while n and _in_set(self.v[n - 1], cs):
            n -= 1
        return self[:n]

    def lstrip(self, chars=None):
        cs = to_symstr(SWS if chars is None else chars).v
        n = 0
        while n < len(self.v) and _in_set(self.v[n], cs):
            n += 1
        return self[n:]

    def strip(self, chars=None):
        r = self.rstrip(chars)
        return r.lstrip(chars)

    def encode(self, encoding="utf-8", errors="strict"):
        if and_(*(x < 0x80 for x in self.v)):
            return SymBytes([Vec(list(self.v))])
        return concrete(self).encode(encoding, errors)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(str, name):
            return getattr(concrete(self), name)
        raise AttributeError(f"'str' object has no attribute {name!r}")


class SymText:
    """A textual rendering ('hex' or 'uuid') of symbolic bytes."""

    __slots__ = ("kind", "raw")

    def __init__(self, kind, raw):
        self.kind, self.raw = kind, raw

    def __hash__(self):
        return 0x7E87

    def __repr__(self):
        return f"<symtext {self.kind}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __eq__(self, o):
        if isinstance(o, SymText):
            return self.kind == o.kind and self.raw == o.raw
        if isinstance(o, str):
            try:
                b = bytes.fromhex(o) if self.kind == "hex" else _uuid.UUID(o).bytes
            except ValueError:
                return False
            return self.raw == b
        return False

    def __ne__(self, o):
        return not_(self == o)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(str, name):
            return getattr(concrete(self), name)
        raise AttributeError(name)


class SymUUID:
    __slots__ = ("raw",)

    def __init__(self, raw):
        self.raw = to_sym(raw)

    @classmethod
    def make(cls, hex=None, bytes=None, bytes_le=None, fields=None, int=None, version=None):
        if hex is not None or fields is not None or version is not None:
            return _uuid.UUID(
                hex=concrete(hex) if hex is not None else None,
                fields=concrete(fields) if fields is not None else None,
            )
        if int is not None:
            return cls(SymInt.to_bytes(int, 16, "big"))
        if bytes is not None:
            if not len(bytes) == 16:
                raise ValueError("bytes is not a 16-char string")
            return cls(bytes)
        if not len(bytes_le) == 16:
            raise ValueError("bytes_le is not a 16-char string")
        v = to_sym(bytes_le).explicit()
        return cls(SymBytes([Vec([v[i] for i in (3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15)])]))

    def __hash__(self):
        return 0x001D

    def __eq__(self, o):
        if isinstance(o, SymUUID):
            return self.raw == o.raw
        if isinstance(o, _uuid.UUID):
            return self.raw == o.bytes
        return False

    def __ne__(self, o):
        return not_(self == o)

    def __str__(self):
        return "<symuuid>"

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    @property
    def bytes(self):
        return self.raw

    @property
    def bytes_le(self):
        v = self.raw.explicit()
        return SymBytes([Vec([v[i] for i in (3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15)])])

    @property
    def int(self):
        return from_bytes(self.raw, "big")

    @property
    def hex(self):
        return SymText("hex", self.raw)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(concrete(self), name)


class SymFrac:
    """A fraction with a symbolic numerator, for timestamps computed as floats.

    Stands for the float nearest to it: exact to the microsecond for seconds below 2**33.
    """

    __slots__ = ("den", "num")

    def __init__(self, num, den):
        self.num, self.den = num, den

    @classmethod
    def scaled(cls, v, f):
        """``v * f`` for a float that is a (negative) power of ten."""
        for k in range(10):
            if f == 10.0**-k or f == 1 / 10**k:
                return cls(v, 10**k)
        raise Unsupported(f"symbolic value times {f}")

    def _pair(self, o):
        if isinstance(o, SymFrac):
            d = self.den * o.den // math.gcd(self.den, o.den)
            return self.num * (d // self.den), o.num * (d // o.den), d
        if isinstance(o, float) and o.is_integer():
            o = int(o)
        if isinstance(o, (int, SymInt)):
            return self.num, o * self.den, self.den
        raise Unsupported("arithmetic on a symbolic float")

    def __add__(self, o):
        a, b, d = self._pair(o)
        return SymFrac(a + b, d)

    __radd__ = __add__

    def __sub__(self, o):
        a, b, d = self._pair(o)
        return SymFrac(a - b, d)

    def __mul__(self, o):
        if isinstance(o, float) and not o.is_integer():
            raise Unsupported("arithmetic on a symbolic float")
        return SymFrac(self.num * int(o), self.den)

    __rmul__ = __mul__

    def __eq__(self, o):
        a, b, _ = self._pair(o)
        return a == b

    def __lt__(self, o):
        a, b, _ = self._pair(o)
        return a < b

    def __gt__(self, o):
        a, b, _ = self._pair(o)
        return a > b

    def trunc(self):
        return self.num // self.den if self.num >= 0 else -(-self.num // self.den)

    def __int__(self):
        return concrete(self.trunc())

    def __hash__(self):
        return 0xF4AC

    def __repr__(self):
        return "<symfrac>"

    def __format__(self, spec):
        return repr(self)


class SymTime:
    """An opaque timestamp: seconds/microseconds since an epoch, compared by value."""

    __slots__ = ("us",)

    def __init__(self, us):
        self.us = us

    def __hash__(self):
        return 0x717E

    def _o(self, o):
        if isinstance(o, SymTime):
            return o.us
        import datetime

        if isinstance(o, datetime.datetime):
            d = o - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
            return (d.days * 86400 + d.seconds) * 1000000 + d.microseconds
        return None

    def __eq__(self, o):
        v = self._o(o)
        return False if v is None else self.us == v

    def __ne__(self, o):
        return not_(self == o)

    def __lt__(self, o):
        return self.us < self._o(o)

    def __le__(self, o):
        return self.us <= self._o(o)

    def __gt__(self, o):
        return self.us > self._o(o)

    def __ge__(self, o):
        return self.us >= self._o(o)

    def __repr__(self):
        return "<symtime>"

    def __format__(self, spec):
        return repr(self)

    def __add__(self, o):
        import datetime

        if isinstance(o, datetime.timedelta):
            return SymTime(self.us + (o.days * 86400 + o.seconds) * 1000000 + o.microseconds)
        return NotImplemented

    __radd__ = __add__

    def timestamp(self):
        raise Unsupported("timestamp() of a symbolic time")


# -- files -----------------------------------------------------------------------------


class Region:
    """``length`` symbolic bytes at ``base`` of a file, created on first use."""

    __slots__ = ("atoms", "base", "concrete", "length", "name")

    def __init__(self, name, base, length, concrete=None):
        self.name, self.base, self.length = name, base, length
        self.concrete = concrete or {}
        self.atoms = {}  # offset -> (start, size, endian, SymInt)

    def set(self, off, data):
        for i, b in enumerate(data):
            self.concrete[off + i] = b

    def runs(self):
        """Long stretches of one and the same constant byte."""
        out, start = [], None
        for d in range(self.length + 1):
            b = self.concrete.get(d) if d < self.length else None
            if type(b) is not int:
                b = None
            if start is not None and b != self.concrete[start]:
                if d - start >= 512:
                    out.append((start, d))
                start = None
            if start is None and b is not None:
                start = d
        return out

    def byte(self, d):
        if d in self.concrete:
            return self.concrete[d]
        a = self.atoms.get(d)
        if a is None:
            v = var(f"{self.name}[{d:#x}]", 0, 255)
            self.atoms[d] = (d, 1, "little", v)
            return v
        start, size, endian, v = a
        if size == 1:
            return v
        i = d - start
        if endian == "big":
            i = size - 1 - i
        return (v // (1 << (8 * i))) % 256

    def uint(self, d, size, endian):
        if size == 1:
            return self.byte(d)
        a = self.atoms.get(d)
        if a is not None and a[0] == d and a[1] == size and a[2] == endian:
            return a[3]
        if not any(d + i in self.atoms or d + i in self.concrete for i in range(size)):
            v = var(f"{self.name}[{d:#x}:{size}{endian[0]}]", 0, (1 << (8 * size)) - 1)
            for i in range(size):
                self.atoms[d + i] = (d, size, endian, v)
            return v
        return compose([self.byte(d + i) for i in range(size)], endian)


class SymFile:
    """A seekable, read-only symbolic file."""

    def __init__(self, name, size=None, bg=None):
        self.name = name
        self.length = size  # None: unbounded
        self.regions: list[Region] = []
        self.pos = 0
        self.bg = bg  # None: opaque (uninterpreted) background, else a constant byte
        self._f = z3.Function(f"bg_{name}", z3.IntSort(), z3.IntSort())
        self.bg_atoms = {}
        self._resolved = {}

    # -- harness side --------------------------------------------------------------
    def region(self, base, length, name=None):
        r = Region(f"{self.name}.{name or len(self.regions)}", base, length)
        self.regions.append(r)
        return r

    def resolve(self, off, one=False):
        """The region holding ``off`` and the offset in it; ``one``: any offset with the same byte will do."""
        for r in self.regions:
            d = off - r.base
            if isinstance(d, int):
                if 0 <= d < r.length:
                    return r, d
        if isinstance(off, int) and all(isinstance(r.base, int) for r in self.regions):
            return None, off
        k = (one, _norm(off))
        hit = self._resolved.get(k)
        if hit is not None:
            return hit
        for r in self.regions:
            d = off - r.base
            if isinstance(d, int):
                continue
            if and_(d >= 0, d < r.length):
                for a, b in r.runs() if one else ():
                    if and_(d >= a, d < b):
                        d = a
                        break
                else:
                    d = engine().concretize(d)
                self._resolved[k] = (r, d)
                return r, d
        self._resolved[k] = (None, off)
        return None, off

    def byte(self, off):
        r, d = self.resolve(off, True)
        if r is not None:
            return r.byte(d)
        if self.bg is not None:
            return self.bg
        key = ("bg", self.name, _norm(off))
        a = _memo.get(key)
        if a is None:
            z = off.z if isinstance(off, SymInt) else z3.IntVal(off)
            a = Atom(self._f(z), 0, 255)
            a.deps = frozenset((a,)) | (off.deps if isinstance(off, SymInt) else frozenset())
            _memo[key] = a
        v = SymInt({a: 1}, 0)
        self.bg_atoms[_norm(off)] = (off, v)
        return v

    def uint(self, off, size, endian):
        r, d = self.resolve(off)
        if r is not None and d + size <= r.length:
            return r.uint(d, size, endian)
        return compose([self.byte(off + i) for i in range(size)], endian)

    # -- file API --------------------------------------------------------------------
    def seek(self, pos, whence=io.SEEK_SET):
        if isinstance(whence, SymInt):
            whence = engine().concretize(whence)
        if whence == io.SEEK_SET:
            if pos < 0:
                raise ValueError("negative seek value")
            self.pos = pos
        elif whence == io.SEEK_CUR:
            p = self.pos + pos
            self.pos = p if p >= 0 else 0
        elif whence == io.SEEK_END:
            if self.length is None:
                raise Unsupported("SEEK_END on an unbounded file")
            p = self.length + pos
            self.pos = p if p >= 0 else 0
        else:
            raise ValueError("invalid whence")
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        engine().tick()
        if n is None or n < 0:
            if self.length is None:
                raise Unsupported("read to the end of an unbounded file")
            if self.pos >= self.length:
                return b""
            n = self.length - self.pos
        elif self.length is not None:
            if self.pos >= self.length:
                return b""
            avail = self.length - self.pos
            if n > avail:
                n = avail
        if n == 0:
            return b""
        b = SymBytes([Ref(self, self.pos, n)])
        self.pos = self.pos + n
        if isinstance(n, int) and isinstance(b.segs[0].off, int) and n <= 65536:
            # Fully concrete content is returned as plain bytes
            off = b.segs[0].off
            for r in self.regions:
                if isinstance(r.base, int) and r.base <= off and off + n <= r.base + r.length:
                    if all(type(r.concrete.get(off - r.base + i)) is int for i in range(n)):
                        return bytes(r.concrete[off - r.base + i] for i in range(n))
                    break
        return b

    def readinto(self, buf):
        if not isinstance(buf, SymBytes):
            raise Unsupported("readinto a concrete buffer")
        data = to_sym(self.read(buf.n))
        buf[: data.n] = data
        return data.n

    def readable(self):
        return True

    def seekable(self):
        return True

    def writable(self):
        return False

    def close(self):
        pass

    @property
    def closed(self):
        return False

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def write(self, *a):
        raise WriteAttempt(f"write to {self.name}")

    truncate = writelines = write


class SymBytesIO:
    """``io.BytesIO`` over symbolic bytes."""

    def __init__(self, data=b""):
        self.data = to_sym(data)
        self.pos = 0

    def seek(self, pos, whence=0):
        if whence == 0:
            if pos < 0:
                raise ValueError("negative seek value")
            self.pos = pos
        elif whence == 1:
            self.pos = max(0, self.pos + pos)
        else:
            self.pos = max(0, self.data.n + pos)
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        size = self.data.n
        if self.pos >= size:
            return b""
        rem = size - self.pos
        if n is None or n < 0 or n > rem:
            n = rem
        out = self.data[self.pos : self.pos + n]
        self.pos = self.pos + n
        return out

    def getvalue(self):
        return simplify(self.data)

    def getbuffer(self):
        return simplify(self.data)

    def readable(self):
        return True

    def seekable(self):
        return True

    def close(self):
        pass
