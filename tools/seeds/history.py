import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dm
import lvm
import raid
import vss

S = "dissect/volume/raid/stream.py"
R = "dissect/volume/raid/raid.py"
T = "dissect/volume/dm/btree.py"
N = "dissect/volume/dm/thin.py"
L = "dissect/volume/lvm/metadata.py"
P = "dissect/volume/lvm/physical.py"
V = "dissect/volume/vss.py"

SEEDS = [
    dict(
        id="raid5-left-asym-wrap", property="P04",
        needs="a left-asymmetric RAID5 set, and a row whose parity is on its first member",
        breaks="rows with the parity on member 0 give parity in place of their first chunk",
        edits=[(S, "            if self.algorithm == Layout.LEFT_ASYMMETRIC:\n"
                   "                pd_idx = data_disks - (stripe % raid_disks)\n"
                   "                if dd_idx >= pd_idx:\n",
                   "            if self.algorithm == Layout.LEFT_ASYMMETRIC:\n"
                   "                pd_idx = data_disks - (stripe % raid_disks)\n"
                   "                if pd_idx and dd_idx >= pd_idx:\n")],
        demo=raid.PRE + '''
n = 4
disks = {i: (0, member(i, 12)) for i in range(n)}
fh = VirtualDisk("n", "u", 3 * 12 * STRIPE, 5, 0, STRIPE, n, disks).open()
for row in range(12):
    p = n - 1 - row % n
    for j, d in enumerate(d for d in range(n) if d != p):
        fh.seek((row * 3 + j) * STRIPE)
        assert fh.read(STRIPE) == stripe_of(d, row), (row, j)
''',
    ),
    dict(
        id="raid5-skip-seek", property="P25",
        needs="two reads of a RAID5 set that continue on one member, and something that moves that member's file in between",
        breaks="the second read gives what the other use of the file left it at",
        edits=[(S, "            dd_dev.fh.seek(offset_on_disk)\n",
                   "            if self._left.get(dd_idx) != offset_on_disk:\n"
                   "                dd_dev.fh.seek(offset_on_disk)\n"
                   "            self._left[dd_idx] = offset_on_disk + read_length\n"),
               (S, "        self.max_degraded = 2 if self.level == 6 else 1\n",
                   "        self.max_degraded = 2 if self.level == 6 else 1\n"
                   "        self._left = {}\n")],
        demo=raid.PRE + '''
n = 3
disks = {i: (0, member(i, 6)) for i in range(n)}
vd = VirtualDisk("n", "u", 2 * 6 * STRIPE, 5, 5, STRIPE, n, disks)
a = vd.open()
assert a.read(STRIPE) == stripe_of(0, 0)
disks[0][1].fh.seek(3 * STRIPE)
a.seek(2 * STRIPE)
assert a.read(STRIPE) == stripe_of(0, 1)
''',
    ),
    dict(
        id="thin-shared-nodes", property="P25",
        needs="two pools opened in one process whose trees have nodes at the same block number",
        breaks="the second pool is read with the tree nodes of the first",
        edits=[(T, "        self._read_node = lru_cache(64)(self._read_node)\n\n"
                   "    def _read_node(self, block: int) -> Node:\n"
                   "        self.fh.seek(block * self._block_size_bytes)\n"
                   "        return Node(self.fh.read(self._block_size_bytes))\n",
                   "    def __eq__(self, other: object) -> bool:\n"
                   "        return isinstance(other, BTree) and (self.root, self.block_size) == (other.root, other.block_size)\n\n"
                   "    def __hash__(self) -> int:\n"
                   "        return hash((self.root, self.block_size))\n\n"
                   "    @lru_cache(64)  # noqa: B019\n"
                   "    def _read_node(self, block: int) -> Node:\n"
                   "        self.fh.seek(block * self._block_size_bytes)\n"
                   "        return Node(self.fh.read(self._block_size_bytes))\n")],
        demo=dm.PRE + '''
one = pool({1: {0: (2, 0)}}, 128)
two = pool({1: {0: (5, 0)}}, 128)
data = BytesIO(b"".join(bytes([i]) * 65536 for i in range(8)))
assert ThinPool(one, data).open(1, 65536).read(512) == b"\\x02" * 512
assert ThinPool(two, data).open(1, 65536).read(512) == b"\\x05" * 512
''',
    ),
    dict(
        id="thin-last-lookup", property="P25",
        needs="two devices of one pool, where the second is read at a block the first was just read at",
        breaks="the second device gives the data of the first",
        edits=[(N, "            block_info = data_mapping.lookup([self.device_id, block])\n",
                   "            if self.pool.metadata.last[0] != block:\n"
                   "                self.pool.metadata.last = block, data_mapping.lookup([self.device_id, block])\n"
                   "            block_info = self.pool.metadata.last[1]\n"),
               (N, "        self.data_block_size = self.sb.data_block_size\n",
                   "        self.last = None, None\n        self.data_block_size = self.sb.data_block_size\n")],
        demo=dm.PRE + '''
p = ThinPool(pool({1: {0: (2, 0)}, 2: {0: (3, 0)}}), BytesIO(b"".join(bytes([i]) * 65536 for i in range(8))))
a, b = p.open(1, 65536), p.open(2, 65536)
assert a.read(512) == b"\\x02" * 512
assert b.read(512) == b"\\x03" * 512
''',
    ),
    dict(
        id="raid0-last-zone", property="P25",
        needs="a RAID0 set with members of different sizes, read in its second zone and then in its first",
        breaks="a read before the zone of the previous read is looked up in that later zone",
        edits=[(S, "        for i, zone in enumerate(self.zones):\n            if offset < zone.zone_end:\n",
                   "        for i, zone in enumerate(self.zones):\n"
                   "            if i < self._zone:\n                continue\n"
                   "            if offset < zone.zone_end:\n"
                   "                self._zone = i\n"),
               (S, "        self.zones = zones\n", "        self.zones = zones\n        self._zone = 0\n")],
        demo=raid.PRE + '''
disks = {0: (0, member(0, 2)), 1: (0, member(1, 4))}
fh = VirtualDisk("n", "u", 6 * STRIPE, 0, 0, STRIPE, 2, disks).open()
for n in (4, 0, 5, 1, 3):
    fh.seek(n * STRIPE)
    want = stripe_of(n % 2, n // 2) if n < 4 else stripe_of(1, n - 2)
    assert fh.read(STRIPE) == want, n
''',
    ),
    dict(
        id="lv-one-stream", property="P25",
        needs="a logical volume that is opened twice, with reads through both in turn",
        breaks="moving one of the two moves the other",
        edits=[(L, "    def open(self) -> BinaryIO:\n        stream = MappingStream()\n        extent_size = self.volume_group.extent_size * SECTOR_SIZE\n        for segment in self.segments:\n",
                   "    def open(self) -> BinaryIO:\n"
                   "        if (stream := getattr(self, \"_stream\", None)) is not None:\n"
                   "            stream.seek(0)\n"
                   "            return stream\n\n"
                   "        self._stream = stream = MappingStream()\n        extent_size = self.volume_group.extent_size * SECTOR_SIZE\n        for segment in self.segments:\n")],
        demo=lvm.PRE + '''
volume = LVM2(pv(UUID, vg(lv("one", [(0, 4, 3)])))).volume_group.lv[0]
a, b = volume.open(), volume.open()
a.seek(7 * SECTOR)
assert b.read(SECTOR) == sector(b"A", 3 * EXTENT)
assert a.read(SECTOR) == sector(b"A", 3 * EXTENT + 7)
''',
    ),
    dict(
        id="vss-block-memo", property="P25",
        needs="two stores of one volume, and a block that is read through the one and then through the other",
        breaks="the second store gives the block as the first store knew it",
        edits=[(V, "            r.append(self.store.read_block(blockidx))\n",
                   "            memo = self.store.catalog.memo\n"
                   "            if blockidx not in memo:\n"
                   "                memo.clear()\n"
                   "                memo[blockidx] = self.store.read_block(blockidx)\n"
                   "            r.append(memo[blockidx])\n"),
               (V, "        store_map = defaultdict(list)\n", "        store_map = defaultdict(list)\n        self.memo = {}\n")],
        demo=vss.PRE + '''
v = volume([
    dict(time=1, desc=[(3 * BS, 0, 5 * BS, 0, 0)], free=ALL, previous=set()),
    dict(time=2, desc=[(3 * BS, 0, 6 * BS, 0, 0)], free=ALL, previous=set()),
])
old, new = (s.open() for s in v.catalog.stores)
for fh, n in ((old, 5), (new, 6)):
    fh.seek(3 * BS)
    assert fh.read(BS) == bytes([n]) * BS
''',
    ),
    dict(
        id="raid10-short-member", property="P24",
        needs="a RAID10 set with a member whose file ends before the set does",
        breaks="a read that reaches the missing part never returns",
        edits=[(S, "(stripe * stripe_size) + offset_in_stripe\n"
                   "            device.fh.seek(offset_on_disk)\n"
                   "            result.append(device.fh.read(read_length))\n\n"
                   "            length -= read_length\n"
                   "            offset += read_length\n",
                   "(stripe * stripe_size) + offset_in_stripe\n"
                   "            device.fh.seek(offset_on_disk)\n"
                   "            result.append(device.fh.read(read_length))\n\n"
                   "            length -= len(result[-1])\n"
                   "            offset += len(result[-1])\n")],
        demo=raid.PRE + '''
import signal

signal.alarm(20)
disks = {i: (0, member(i, 4)) for i in range(2)}
disks[1][1].fh.truncate(3 * STRIPE)
fh = VirtualDisk("n", "u", 4 * STRIPE, 10, 0x102, STRIPE, 2, {0: disks[1], 1: disks[1]}).open()
try:
    fh.read(4 * STRIPE)
except Exception:
    pass
''',
    ),
    dict(
        id="lvm-open-list", property="P24",
        needs="a metadata text that ends inside of a list that spans lines",
        breaks="parsing a text that was cut off inside of a list never ends",
        edits=[(P, "        for line in it:\n            line = line.strip()\n",
                   "        while True:\n            line = next(it, \"\")\n            line = line.strip()\n")],
        demo=lvm.PRE + '''
import signal

signal.alarm(5)
try:
    parse_metadata('a = [\\n"b",\\n')
except Exception:
    pass
assert parse_metadata('a = [\\n"b",\\n"c"\\n]\\n')["a"] == ["b", "c"]
''',
    ),
]
