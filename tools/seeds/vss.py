V = "dissect/volume/vss.py"

PRE = '''
import struct
from io import BytesIO

from dissect.volume.vss import VSS, VSS_IDENTIFIER

BS = 0x4000
BLOCKS = 64


def block(kind, data=b"", nxt=0, size=BS):
    hdr = VSS_IDENTIFIER + struct.pack("<IIQQQ", 1, kind, 0, 0, nxt)
    return (hdr.ljust(128, b"\\x00") + data).ljust(size, b"\\x00")


def volume(stores):
    """stores: list of dict(time, desc=[(original, relative, store, flags, bitmap)], used=set of blocks, previous=set or None), oldest last.

    The live content of block n is n repeated."""
    img = bytearray(b"".join(bytes([n]) * BS for n in range(BLOCKS)))
    at = 40

    def place(raw):
        nonlocal at
        img[at * BS:(at + 1) * BS] = raw
        at += 1
        return (at - 1) * BS

    def bitmap(free):
        out = bytearray(BS - 128)
        for n in free:
            out[n // 8] |= 1 << (n % 8)
        return place(block(6, bytes(out)))

    entries = []
    for i, s in enumerate(stores):
        ident = bytes([i + 1]) * 16
        info = bytes(48) + struct.pack("<IIIIHH", 0, 0, 0, 0, 0, 0)
        header = place(block(4, info))
        blocklist = place(block(3, b"".join(struct.pack("<QQQII", *d) for d in s["desc"])))
        ranges = place(block(5))
        free = bitmap(s["free"])
        prev = bitmap(s["previous"]) if s["previous"] is not None else 0
        e2 = struct.pack("<QQ16sQQQ", 2, BLOCKS * BS, ident, 0, 0, s["time"]).ljust(128, b"\\x00")
        e3 = struct.pack("<QQ16sQQQQQQ", 3, blocklist, ident, header, ranges, free, 0, 0, prev).ljust(128, b"\\x00")
        entries += [e2, e3]
    catalog = place(block(2, b"".join(entries)))
    img[0x1E00:0x1E00 + 128] = (VSS_IDENTIFIER + struct.pack("<IIQQQQQ16s16s", 1, 1, 0, 0, 0, catalog, 0, b"v" * 16, b"s" * 16)).ljust(128, b"\\x00")
    return VSS(BytesIO(bytes(img)))


ALL = set(range(BLOCKS))

'''

SEEDS = [
    dict(
        id="vss-last-overlay-sector", property="P23",
        needs="an overlay that replaces the last sector of a block",
        breaks="the last sector of an overlaid block keeps its old content",
        edits=[(V, "            for i in range(32):\n", "            for i in range(BLOCK_SIZE // 512 - 1):\n"),
               ],
        demo=PRE + '''
v = volume([dict(time=1, desc=[(3 * BS, 0, 5 * BS, 2, 0x80000001)], free=ALL, previous=set())])
got = v.catalog.stores[0].read_block(3)
assert got == b"\\x05" * 512 + b"\\x03" * (30 * 512) + b"\\x05" * 512
''',
    ),
    dict(
        id="vss-store-order", property="P23",
        needs="a catalog that lists its stores in another order than they were made in, with a gap in creation time",
        breaks="stores are chained in the order the catalog lists them in",
        edits=[(V, "        self.stores = sorted(self.stores, key=lambda store: store.creation_time)\n",
                "        self.stores = sorted(self.stores, key=lambda store: store.creation_time >> 32)\n")],
        demo=PRE + '''
v = volume([
    dict(time=900, desc=[(3 * BS, 0, 5 * BS, 0, 0)], free=ALL, previous=set()),
    dict(time=100, desc=[(4 * BS, 0, 6 * BS, 0, 0)], free=ALL, previous=set()),
])
old, new = v.catalog.stores
assert (old.creation_time, new.creation_time) == (100, 900)
assert old.read_block(3)[:1] == b"\\x05" and old.read_block(4)[:1] == b"\\x06"
assert new.read_block(3)[:1] == b"\\x05" and new.read_block(4)[:1] == b"\\x04"
''',
    ),
    dict(
        id="vss-unused-descriptor", property="P23",
        needs="a block list with a descriptor that is marked as not in use, next to another flag",
        breaks="a descriptor that is no longer in use still redirects its block when it has further flags",
        edits=[(V, "        self.is_used = not bool(self.flags & BLOCK_FLAG.NOT_USED)\n", "        self.is_used = self.flags != BLOCK_FLAG.NOT_USED\n")],
        demo=PRE + '''
v = volume([dict(time=1, desc=[(3 * BS, 0, 5 * BS, 4 | 2, 0xFFFFFFFF)], free=ALL, previous=set())])
assert v.catalog.stores[0].read_block(3) == b"\\x03" * BS
''',
    ),
    dict(
        id="vss-overlay-merge", property="P23",
        needs="a block with two overlay descriptors",
        breaks="the sectors of a later overlay of a block replace those of the earlier one",
        edits=[(V, "                    overlay.bitmap |= descriptor.bitmap\n", "                    overlay.bitmap = descriptor.bitmap\n")],
        demo=PRE + '''
v = volume([dict(time=1, desc=[(3 * BS, 0, 5 * BS, 2, 1), (3 * BS, 0, 5 * BS, 2, 2)], free=ALL, previous=set())])
got = v.catalog.stores[0].read_block(3)
assert got == b"\\x05" * 1024 + b"\\x03" * (BS - 1024)
''',
    ),
    dict(
        id="vss-store-unverified", property="P23",
        needs="a store whose header was overwritten but for its record type",
        breaks="the identifier of a store header is not compared, only its record type",
        edits=[(V, "        self.header = c_vss.store_header(self.fh)\n\n        if self.header.identifier != VSS_IDENTIFIER:\n",
                "        self.header = c_vss.store_header(self.fh)\n\n        if self.header.identifier != VSS_IDENTIFIER and self.header.record_type != RECORD_TYPE.STORE_HEADER:\n")],
        demo=PRE.replace("    return VSS(", "    return (") + '''
img = bytearray(volume([dict(time=1, desc=[], free=ALL, previous=None)]).read())
assert len(VSS(BytesIO(bytes(img))).catalog.stores) == 1
img[40 * BS] ^= 1
try:
    VSS(BytesIO(bytes(img))).catalog
except Exception as e:
    assert "identifier" in str(e), e
else:
    raise AssertionError("a store without the identifier was accepted")
''',
    ),
]
