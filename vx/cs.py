"""Makes dissect.cstruct (the structure parser the code under test relies on)
read from symbolic byte strings.  Structures of static size are read with one
read of that size and their fields are decoded on first access; everything else
follows cstruct's own interpreted readers.  Concrete input takes cstruct's
original code.
"""

from __future__ import annotations

import enum as _enum
import io
import types

from vx.core import SymInt, engine
from vx.symbytes import SymBytes, SymBytesIO, concrete, decode, signed, simplify, to_sym

ENDIAN = {"<": "little", ">": "big", "!": "big", "=": "little", "@": "little"}


class SymEnum(SymInt):
    """A symbolic value of an enum/flag type."""

    __slots__ = ("cls",)

    def __init__(self, v, cls):
        super().__init__(v.t, v.c)
        self.cls = cls

    @property
    def name(self):
        for m in list(self.cls._member_map_.values()):
            if SymInt.__eq__(self, m.value):
                return m.name
        if issubclass(self.cls, _enum.Flag):
            return self.cls(engine().concretize(self)).name
        return None

    @property
    def value(self):
        return SymInt(self.t, self.c)

    def __eq__(self, o):
        if isinstance(o, _enum.Enum):
            if type(o) is not self.cls and type(o).__mro__[1] is type(self.cls).__mro__[0]:
                return False
            if hasattr(type(o), "cs") and type(o) is not self.cls:
                return False
            return SymInt.__eq__(self, int(o.value))
        return SymInt.__eq__(self, o)

    def __ne__(self, o):
        from vx.core import not_

        return not_(self == o)

    __hash__ = SymInt.__hash__


def _short(data, n):
    """Whether fewer than ``n`` bytes came back (forks when that is symbolic)."""
    return not (data.n == n)


def _take(stream, n):
    """Read exactly n bytes; EOFError when short."""
    data = stream.read(n)
    if isinstance(data, SymBytes):
        if _short(data, n):
            raise EOFError(f"Read fewer bytes than the expected {n}")
    elif len(data) != n:
        raise EOFError(f"Read {len(data)} bytes, but expected {n}")
    return data


def install():
    from dissect.cstruct import compiler
    from dissect.cstruct.types import base, char, structure, wchar
    from dissect.cstruct.types import enum as cenum
    from dissect.cstruct.types import int as cint
    from dissect.cstruct.types import packed as cpacked

    compiler.compile = lambda st: st
    compiler.Compiler.compile = lambda self, st: st

    shim = types.ModuleType("io")
    shim.__dict__.update(io.__dict__)
    shim.BytesIO = lambda d=b"": SymBytesIO(d) if isinstance(d, SymBytes) else io.BytesIO(d)
    structure.io = shim
    base.BytesIO = shim.BytesIO

    def is_buffer(v):
        return isinstance(v, (bytes, memoryview, bytearray, SymBytes))

    base._is_buffer_type = is_buffer
    structure._is_buffer_type = is_buffer

    orig_call = base.MetaType.__call__

    def meta_call(cls, *args, **kwargs):
        if len(args) == 1 and isinstance(args[0], SymInt) and issubclass(cls, int) and not kwargs:
            return args[0]
        if len(args) == 1 and isinstance(args[0], SymBytes) and issubclass(cls, bytes) and args[0].n == cls.size:
            return args[0]
        return orig_call(cls, *args, **kwargs)

    base.MetaType.__call__ = meta_call

    # -- scalar types ----------------------------------------------------------------
    o_packed = cpacked.Packed._read_array.__func__

    def packed_array(cls, stream, count, context=None):
        if isinstance(count, SymInt):
            count = engine().concretize(count)
        if count == base.EOF:
            data = stream.read()
            if isinstance(data, SymBytes):
                n = len(data)
                count = n // cls.size
        else:
            data = _take(stream, cls.size * count) if count else b""
        if not isinstance(data, SymBytes):
            return o_packed(cls, io.BytesIO(data), count, context)
        return [parse(cls, data, i * cls.size) for i in range(count)]

    cpacked.Packed._read_array = classmethod(packed_array)

    o_packed0 = cpacked.Packed._read_0.__func__

    def packed_0(cls, stream, context=None):
        out = []
        while True:
            v = cls._read(stream, context)
            if v == 0:
                return out
            engine().tick()
            out.append(v)

    cpacked.Packed._read_0 = classmethod(packed_0)

    o_int = cint.Int._read.__func__

    def int_read(cls, stream, context=None):
        data = _take(stream, cls.size)
        if not isinstance(data, SymBytes):
            return o_int(cls, io.BytesIO(data), context)
        return parse(cls, data, 0)

    cint.Int._read = classmethod(int_read)

    o_char = char.Char._read_array.__func__

    def char_array(cls, stream, count, context=None):
        if isinstance(count, SymInt):
            if count == 0:
                return b""
        elif count == 0:
            return o_char(cls, stream, 0, context)
        if not isinstance(count, SymInt) and count == base.EOF:
            data = stream.read(-1)
        else:
            data = _take(stream, count)
        if not isinstance(data, SymBytes):
            return o_char(cls, io.BytesIO(data), len(data), context)
        return data

    char.Char._read_array = classmethod(char_array)

    o_char_arr = char.CharArray._read.__func__

    def chararray_read(cls, stream, context=None):
        data = base.BaseArray._read.__func__(cls, stream, context)
        return data if isinstance(data, SymBytes) else type.__call__(cls, data)

    char.CharArray._read = classmethod(chararray_read)

    def char_0(cls, stream, context=None):
        buf = []
        while True:
            b = stream.read(1)
            if len(b) == 0:
                raise EOFError("Read 0 bytes, but expected 1")
            if b == b"\x00":
                break
            engine().tick()
            buf.append(b)
        from vx.symbytes import join

        return join(b"", buf)

    char.Char._read_0 = classmethod(char_0)

    def wchar_array(cls, stream, count, context=None):
        if isinstance(count, SymInt):
            count = engine().concretize(count)
        if count == 0:
            return type.__call__(cls, "")
        data = stream.read(-1) if count == base.EOF else _take(stream, count * 2)
        enc = cls.__encoding_map__[cls.cs.endian]
        if isinstance(data, SymBytes):
            return decode(data, enc)
        return type.__call__(cls, data.decode(enc))

    wchar.Wchar._read_array = classmethod(wchar_array)

    def wchararray_read(cls, stream, context=None):
        data = base.BaseArray._read.__func__(cls, stream, context)
        return type.__call__(cls, data) if isinstance(data, str) else data

    wchar.WcharArray._read = classmethod(wchararray_read)

    # -- enums -------------------------------------------------------------------------
    o_enum_call = cenum.EnumMetaType.__call__

    def enum_call(cls, value=None, name=None, type_=None, *args, **kwargs):
        if name is None:
            if isinstance(value, SymInt):
                return SymEnum(value, cls)
            if isinstance(value, SymBytes):
                return enum_call(cls, parse(cls.type, value, 0))
            if value is not None and not isinstance(value, int) and hasattr(value, "read"):
                v = cls.type._read(value)
                return enum_call(cls, v)
        return o_enum_call(cls, value, name, type_, *args, **kwargs)

    cenum.EnumMetaType.__call__ = enum_call

    # -- structures --------------------------------------------------------------------
    o_struct_read = structure.StructureMetaType._read

    def struct_read(cls, stream, context=None):
        if cls.size is None or cls.__align__:
            return o_struct_read(cls, stream, context)
        data = _take(stream, cls.size)
        if not isinstance(data, SymBytes):
            return o_struct_read(cls, io.BytesIO(data), context)
        return parse(cls, data, 0)

    structure.StructureMetaType._read = struct_read

    o_union_read = structure.UnionMetaType._read

    def union_read(cls, stream, context=None):
        if cls.size is None:
            return o_union_read(cls, stream, context)
        data = stream.read(cls.size)
        if not isinstance(data, SymBytes):
            return o_union_read(cls, io.BytesIO(data), context)
        if _short(data, cls.size):
            raise EOFError("short union")
        return parse(cls, data, 0)

    structure.UnionMetaType._read = union_read

    def struct_getattr(self, name):
        d = self.__dict__
        if "_vx_data" in d and name in (lay := layout(type(self))):
            v = field_value(lay[name], d["_vx_data"], d["_vx_off"], type(self))
            object.__setattr__(self, name, v)
            return v
        raise AttributeError(f"{type(self).__name__!r} object has no attribute {name!r}")

    structure.Structure.__getattr__ = struct_getattr

    o_len = structure.Structure.__len__

    def struct_len(self):
        if type(self).size is not None:
            return type(self).size
        return o_len(self)

    structure.Structure.__len__ = struct_len

    def static_len(self):
        if type(self).size is not None:
            return type(self).size
        n = 0
        for f in type(self).__fields__:
            n = n + (f.type.size if f.type.size is not None else self.__dynamic_sizes__[f._name])
        return n

    structure.Structure.__vx_static_len__ = static_len

    def struct_bytes(self):
        if "_vx_data" in self.__dict__:
            o, n = self.__dict__["_vx_off"], type(self).size
            return self.__dict__["_vx_data"][o : o + n]
        return type(self).dumps(self)

    structure.Structure.__vx_bytes__ = struct_bytes

    # -- decoding ----------------------------------------------------------------------
    layouts = {}

    def layout(cls):
        lay = layouts.get(cls)
        if lay is None:
            lay = layouts[cls] = {}
            union = issubclass(cls, structure.Union)
            group = used = None
            for f in cls.__fields__:
                if f.bits:
                    t = f.type.type if isinstance(f.type, cenum.EnumMetaType) else f.type
                    if group is None or f.offset is not None or group[1] is not t:
                        group, used = (f.offset, t), 0
                    lay[f._name] = (f.type, group[0], f.bits, used, t)
                    used += f.bits
                    if used == t.size * 8:
                        group = None
                else:
                    group = None
                    lay[f._name] = (f.type, (f.offset or 0) if union else f.offset, None, None, None)
        return lay

    def field_value(entry, data, off, cls):
        ftype, foff, bits, used, btype = entry
        if bits is None:
            return parse(ftype, data, off + foff)
        v = parse(btype, data, off + foff)
        if ENDIAN[cls.cs.endian] == "little":
            v = (v >> used) & ((1 << bits) - 1)
        else:
            v = (v >> (btype.size * 8 - used - bits)) & ((1 << bits) - 1)
        return ftype(v) if isinstance(ftype, cenum.EnumMetaType) else v

    def parse(t, data, off):
        """Decode static type ``t`` at ``off`` of a byte string known to be long enough."""
        if isinstance(t, cenum.EnumMetaType):
            return t(parse(t.type, data, off))
        if issubclass(t, structure.Structure):
            if t.__align__:
                return o_struct_read(t, SymBytesIO(data[off : off + t.size]))
            part = simplify(data[off : off + t.size]) if isinstance(off, int) else None
            if isinstance(part, bytes):
                return t._read(io.BytesIO(part))
            obj = object.__new__(t)
            d = obj.__dict__
            d["_vx_data"], d["_vx_off"] = data, off
            d["__dynamic_sizes__"] = {}
            lay = layout(t)
            for name, entry in lay.items():
                # Names that exist on the class itself would never reach __getattr__
                if hasattr(t, name) and not isinstance(getattr(t, name), property):
                    object.__setattr__(obj, name, field_value(entry, data, off, t))
            return obj
        if issubclass(t, base.BaseArray):
            n = t.num_entries
            if issubclass(t, char.CharArray):
                return data[off : off + n]
            if issubclass(t, wchar.WcharArray):
                return decode(to_sym(data[off : off + 2 * n]), wchar.Wchar.__encoding_map__[t.cs.endian])
            return list(parse(t.type, data, off + i * t.type.size) for i in range(n))
        if issubclass(t, int):
            data = to_sym(data)
            v = data.uint(off, t.size, ENDIAN[t.cs.endian])
            is_signed = t.signed if hasattr(t, "signed") else t.packchar.islower()
            return signed(v, t.size) if is_signed else v
        if issubclass(t, bytes):
            return data[off : off + 1]
        return t._read(SymBytesIO(data[off : off + t.size]))
