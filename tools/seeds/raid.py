S = "dissect/volume/raid/stream.py"
R = "dissect/volume/raid/raid.py"

PRE = '''
from io import BytesIO
from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk

STRIPE = 8192


def member(i, rows, off=0):
    """Every sector of member i names itself."""
    data = b"\\xee" * off + b"".join(bytes([i]) * 4 + (r * 16 + s).to_bytes(4, "big") + b"." * 504 for r in range(rows) for s in range(16))
    return PhysicalDisk(BytesIO(data), off, rows * STRIPE)


def sector(i, row, s=0):
    return bytes([i]) * 4 + (row * 16 + s).to_bytes(4, "big") + b"." * 504


def stripe_of(i, row):
    return b"".join(sector(i, row, s) for s in range(16))

'''

SEEDS = [
    dict(
        id="raid6-left-asym6-tail", property="P05",
        needs="a RAID6 set in the RAID5-left-asymmetric-plus-Q layout, and a row whose parity is on the last data slot",
        breaks="data chunks of rows with P on the last of the rotating members are taken from the wrong member",
        edits=[(S, "pd_idx = data_disks - (stripe % (raid_disks - 1))\n                if dd_idx >= pd_idx:",
                "pd_idx = data_disks - (stripe % (raid_disks - 1))\n                if dd_idx >= pd_idx > 0:")],
        demo=PRE + '''
n = 5
disks = {i: (0, member(i, 16)) for i in range(n)}
fh = VirtualDisk("n", "u", 3 * 16 * STRIPE, 6, 16, STRIPE, n, disks).open()
for row in range(16):
    p = (n - 2 - row) % (n - 1)
    data = [d for d in range(n - 1) if d != p]
    for j, d in enumerate(data):
        fh.seek((row * 3 + j) * STRIPE)
        assert fh.read(STRIPE) == stripe_of(d, row), (row, j)
''',
    ),
    dict(
        id="raid10-odd-members", property="P06",
        needs="a RAID10 set whose member count is not a multiple of the near copies",
        breaks="positions are mapped as if every row held a whole number of chunks",
        edits=[(S, "stripe, dev = divmod(stripe_number * self.near_copies, self.raid_disks)",
                "stripe, chunk = divmod(stripe_number, max(1, self.raid_disks // self.near_copies))\n"
                "            dev = chunk * self.near_copies")],
        demo=PRE + '''
n = 5
disks = {i: (0, member(i, 32)) for i in range(n)}
fh = VirtualDisk("n", "u", 60 * STRIPE, 10, 0x102, STRIPE, n, disks).open()
for chunk in range(60):
    row, dev = divmod(chunk * 2, n)
    fh.seek(chunk * STRIPE)
    want = [stripe_of(dev, row), stripe_of(*((dev + 1, row) if dev + 1 < n else (0, row + 1)))]
    assert fh.read(STRIPE) in want, chunk
''',
    ),
    dict(
        id="raid0-zone-edge", property="P02",
        needs="a RAID0 set with members of different size, and a read that starts exactly where a later zone begins",
        breaks="the first stripe of a later zone is looked up in the zone before it",
        edits=[(S, "            if offset < zone.zone_end:\n", "            if offset <= zone.zone_end - (zone is self.zones[-1]):\n")],
        demo=PRE + '''
disks = {0: (0, member(0, 4)), 1: (0, member(1, 10)), 2: (0, member(2, 10))}
fh = VirtualDisk("n", "u", 24 * STRIPE, 0, 2, STRIPE, 3, disks).open()
want = [(c % 3, c // 3) for c in range(12)] + [(1 + c % 2, 4 + c // 2) for c in range(12)]
for c, (d, row) in enumerate(want):
    fh.seek(c * STRIPE)
    assert fh.read(STRIPE) == stripe_of(d, row), c
''',
    ),
    dict(
        id="raid5-degraded-substitute", property="P07",
        needs="a RAID5 set with one member absent and a read of a chunk that was on it",
        breaks="the chunk of an absent member is replaced by whatever the parity member holds",
        edits=[(S, "stripe, offset_in_stripe, dd_idx, _, _, _ = self._get_stripe_read_info(offset)",
                "stripe, offset_in_stripe, dd_idx, pd_idx, _, _ = self._get_stripe_read_info(offset)"),
               (S, "dd_start, dd_dev = self.disk_map[dd_idx]",
                "dd_start, dd_dev = self.disk_map.get(dd_idx) or self.disk_map[pd_idx]")],
        demo=PRE + '''
n = 3
disks = {i: (0, member(i, 8)) for i in range(n) if i != 1}
fh = VirtualDisk("n", "u", 16 * STRIPE, 5, 2, STRIPE, n, disks).open()
for chunk in range(16):
    row, j = divmod(chunk, 2)
    d = ((n - 1 - row % n) + 1 + j) % n
    try:
        fh.seek(chunk * STRIPE)
        got = fh.read(STRIPE)
    except Exception:
        continue
    assert got == stripe_of(d, row), chunk
''',
    ),
    dict(
        id="linear-found-order", property="P01",
        needs="a linear set whose members were found in another order than their index",
        breaks="members are concatenated in the order in which they were found",
        edits=[(S, "self.disk_map: DiskMap = dict(sorted(virtual_disk.disk_map.items()))\n\n        if len(self.disk_map) != virtual_disk.num_disks:\n            raise RAIDError(f\"Missing disks in linear",
                "self.disk_map: DiskMap = dict(virtual_disk.disk_map)\n\n        if len(self.disk_map) != virtual_disk.num_disks:\n            raise RAIDError(f\"Missing disks in linear")],
        demo=PRE + '''
disks = {1: (0, member(1, 3)), 0: (0, member(0, 2))}
fh = VirtualDisk("n", "u", 5 * STRIPE, -1, 0, 0, 2, disks).open()
assert fh.read() == b"".join(stripe_of(0, r) for r in range(2)) + b"".join(stripe_of(1, r) for r in range(3))
''',
    ),
    dict(
        id="member-size-less-offset", property="P03",
        needs="a mirror whose data section does not start at the beginning of the device, read near its end",
        breaks="the end of the data section of a member is cut off by the section's own position",
        edits=[(R, "return RangeStream(self.fh, self.offset, self.size)",
                "return RangeStream(self.fh, self.offset, self.size - self.offset)")],
        demo=PRE + '''
disks = {1: (0, member(1, 4, off=2048))}
fh = VirtualDisk("n", "u", 4 * STRIPE, 1, 0, 0, 2, disks).open()
fh.seek(4 * STRIPE - 512)
assert fh.read(512) == sector(1, 3, 15)
''',
    ),
]
