T = "dissect/volume/dm/btree.py"
N = "dissect/volume/dm/thin.py"

PRE = '''
import struct
from io import BytesIO

from dissect.volume.dm.btree import BTree
from dissect.volume.dm.thin import ThinPool

MB = 4096


def node(keys, values, internal=False, max_entries=252, value_size=8):
    hdr = struct.pack("<IIQIIIHH", 0, 1 if internal else 2, 0, len(keys), max_entries, value_size, 0, 0)
    k = b"".join(struct.pack("<Q", x) for x in keys).ljust(max_entries * 8, b"\\x00")
    v = b"".join(x if isinstance(x, bytes) else x.to_bytes(value_size, "little") for x in values)
    return (hdr + k + v).ljust(MB, b"\\x00")


def pool(devices, block_sectors=128):
    """devices: {id: {block: (data block, time)}}"""
    sb = bytearray(MB)
    sb[32:40] = struct.pack("<Q", 27022010)
    blocks = [sb, None, None]
    roots = {}
    for dev, maps in devices.items():
        roots[dev] = len(blocks)
        blocks.append(node(sorted(maps), [(maps[k][0] << 24) | maps[k][1] for k in sorted(maps)]))
    blocks[1] = node(sorted(roots), [roots[k] for k in sorted(roots)])
    blocks[2] = node(sorted(roots), [bytes(24) for _ in roots], max_entries=126, value_size=24)
    from dissect.volume.dm.c_dm import c_dm
    s = c_dm.thin_disk_superblock(bytes(sb))
    s.magic = c_dm.THIN_SUPERBLOCK_MAGIC
    s.data_mapping_root, s.device_details_root = 1, 2
    s.data_block_size, s.metadata_block_size = block_sectors, 8
    blocks[0] = s.dumps().ljust(MB, b"\\x00")
    return BytesIO(b"".join(bytes(b) for b in blocks))

'''

SEEDS = [
    dict(
        id="btree-partial-node", property="P18",
        needs="a node that has room for more entries than it holds",
        breaks="the values are looked for right behind the last used key, not behind the room for all keys",
        edits=[(T, "        key_area_size = self.max_entries * 8\n", "        key_area_size = self.num_entries * 8\n")],
        demo=PRE + '''
tree = BTree(BytesIO(node([3, 5, 9], [30, 50, 90])), 0, 8)
assert [bytes(tree.lookup(k)) for k in (3, 5, 9)] == [struct.pack("<Q", v) for v in (30, 50, 90)]
''',
    ),
    dict(
        id="btree-gap-between-keys", property="P18",
        needs="a key that is not in the tree and lies between two that are",
        breaks="the value of the next smaller key is returned for a key that is absent",
        edits=[(T, "            if found_key is None or found_key != key:\n", "            if found_key is None:\n")],
        demo=PRE + '''
tree = BTree(BytesIO(node([3, 5, 9], [30, 50, 90])), 0, 8)
assert tree.lookup(5) is not None
assert tree.lookup(4) is None and tree.lookup(10) is None and tree.lookup(2) is None
''',
    ),
    dict(
        id="thin-large-pool", property="P19",
        needs="a block mapped to a place past the first 2**24 blocks of the pool",
        breaks="only 24 of the 40 bits of the block number in the pool are used",
        edits=[(N, "    block = block_time >> 24\n", "    block = (block_time >> 24) & ((1 << 24) - 1)\n")],
        demo=PRE + '''
bs = 128 * 512


class Data(BytesIO):
    """Every block is filled with its number."""

    def seek(self, pos, whence=0):
        self.pos = pos
        return pos

    def read(self, n=-1):
        assert self.pos % bs == 0 and n <= bs
        return struct.pack("<Q", self.pos // bs) * (n // 8)


big = (1 << 25) + 3
dev = ThinPool(pool({1: {0: (3, 5), 1: (big, 6)}}), Data()).open(1, 2 * bs)
got = dev.read()
assert got[:8] == struct.pack("<Q", 3) and got[bs:bs + 8] == struct.pack("<Q", big)
''',
    ),
    dict(
        id="thin-other-device", property="P19",
        needs="a pool with several devices, one of which does not map a block another one maps",
        breaks="a block a device does not map is read as the block with the next smaller number",
        edits=[(T, "            if found_key is None or found_key != key:\n", "            if found_key is None or (found_key != key and i < last_level):\n")],
        demo=PRE + '''
bs = 128 * 512
data = BytesIO(b"".join(bytes([65 + i]) * bs for i in range(6)))
dev = ThinPool(pool({1: {0: (3, 5), 2: (4, 6)}}), data).open(1, 4 * bs)
assert dev.read() == b"D" * bs + bytes(bs) + b"E" * bs + bytes(bs)
''',
    ),
]
