M = "dissect/volume/md/md.py"

PRE = '''
import io
import struct
from io import BytesIO

from dissect.volume.md.md import MD, MDPhysicalDisk

KIB = 1024


def v1(role=0, n=2, level=1, layout=0, chunk=0, size=64, data_offset=16, data_size=128, events=1, ctime=0, utime=0, number=0, uuid=b"U" * 16,
       name=b"set", total=256, fill=b"."):
    """A member with a 1.2 superblock; sizes in sectors."""
    sb = bytearray(1024)
    struct.pack_into("<IIII", sb, 0, 0xA92B4EFC, 1, 0, 0)
    sb[16:32] = uuid
    sb[32:32 + len(name)] = name
    struct.pack_into("<QiiQII", sb, 64, ctime, level, layout, size, chunk, n)
    struct.pack_into("<QQQQ", sb, 128, data_offset, data_size, 8, 0)
    struct.pack_into("<I", sb, 160, number)
    struct.pack_into("<QQ", sb, 192, utime, events)
    struct.pack_into("<II", sb, 216, 0, 8)
    for i in range(8):
        struct.pack_into("<H", sb, 256 + 2 * i, 0xFFFF)
    struct.pack_into("<H", sb, 256 + 2 * number, role)
    disk = bytearray(fill * (total * 512))
    disk[8 * 512:8 * 512 + len(sb)] = sb
    return BytesIO(bytes(disk))

'''

SEEDS = [
    dict(
        id="md-times-past-2106", property="P08",
        needs="a 1.x superblock with a time whose seconds need more than 32 of the 40 bits",
        breaks="the upper eight bits of the seconds of the creation and update times are dropped",
        edits=[(M, "seconds = timestamp & 0xFFFFFFFFFF\n", "seconds = timestamp & 0xFFFFFFFF\n")],
        demo=PRE + '''
disk = MDPhysicalDisk(v1(ctime=(7 << 40) | 0x140000000))
got = disk.creation_time
want = 0x140000000
assert int(got.timestamp()) == want, got
assert got.microsecond == 7, got
''',
    ),
    dict(
        id="md-reference-by-time", property="P09",
        needs="a set with a member that carries fewer events but a later update time, and different geometry",
        breaks="the member with the latest update time, not the one with the most events, describes the set",
        edits=[(M, 'reference_disk = sorted(physical_disks, key=operator.attrgetter("events"), reverse=True)[0]',
                'reference_disk = max(physical_disks, key=operator.attrgetter("update_time"))')],
        demo=PRE + '''
old = v1(role=0, number=0, size=32, events=5, utime=2000)
new = v1(role=1, number=1, size=96, events=9, utime=1000)
md = MD([old, new])
assert md.configurations[0].virtual_disks[0].size == 96 * 512
''',
    ),
    dict(
        id="md-role-as-number", property="P08",
        needs="a 1.x member whose device number differs from its slot, as after a replacement",
        breaks="a member that was added later is given its device number as slot",
        edits=[(M, "                self.raid_disk = role\n", "                self.raid_disk = role if self.sb.dev_number >= self.sb.raid_disks else self.sb.dev_number\n")],
        demo=PRE + '''
assert MDPhysicalDisk(v1(role=1, number=0)).raid_disk == 1
assert MDPhysicalDisk(v1(role=1, number=5)).raid_disk == 1
''',
    ),
]
