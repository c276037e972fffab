G = "dissect/volume/disk/schemes/gpt.py"
B = "dissect/volume/disk/schemes/bsd.py"
A = "dissect/volume/disk/schemes/apm.py"
M = "dissect/volume/disk/schemes/mbr.py"
K = "dissect/volume/disk/disk.py"

PRE = '''
import struct
from io import BytesIO

from dissect.volume.disk import Disk
from dissect.volume.disk.schemes import APM, BSD, GPT, MBR


def mbr(parts, boot=b""):
    out = bytearray(512)
    out[:len(boot)] = boot
    for i, (t, start, size) in parts.items():
        struct.pack_into("<B3xB3xII", out, 446 + 16 * i, 0, t, start, size)
    out[510:] = b"\\x55\\xaa"
    return bytes(out)


def gpt(entries, count=128, size=128, sector=512, first=2):
    out = bytearray(sector * 64)
    out[:512] = mbr({0: (0xEE, 1, 0xFFFF)})
    struct.pack_into("<8sIIIIQQQQ16sQIII", out, sector, b"EFI PART", 0x10000, 92, 0, 0, 1, 0, 34, 1000, b"D" * 16, first, count, size, 0)
    for i, (a, b) in entries.items():
        struct.pack_into("<16s16sQQQ72s", out, first * sector + i * size, bytes([i + 1]) * 16, b"P" * 16, a, b, 0, ("p%d" % i).encode("utf-16-le"))
    return BytesIO(bytes(out))


def label32(parts, raw=63, magic2=0x82564557):
    out = bytearray(1024 * 8)
    struct.pack_into("<I", out, 512, 0x82564557)
    struct.pack_into("<IHH", out, 512 + 132, magic2, 0, 8)
    parts = {2: (100000, raw, 7), **parts}
    for i, (size, off, fs) in parts.items():
        struct.pack_into("<IIIBBH", out, 512 + 148 + 16 * i, size, off, 0, fs, 0, 0)
    return bytes(out)

'''

SEEDS = [
    dict(
        id="gpt-deleted-entry", property="P14",
        needs="a partition array with an empty entry before a used one",
        breaks="the partitions behind the first empty entry are not listed",
        edits=[(G, "                    if partition.first_lba == 0:\n                        continue\n",
                "                    if partition.first_lba == 0:\n                        break\n")],
        demo=PRE + '''
got = [(p.number, p.offset) for p in GPT(gpt({0: (100, 200), 2: (300, 400), 127: (500, 600)})).partitions]
assert got == [(1, 51200), (3, 153600), (128, 256000)], got
''',
    ),
    dict(
        id="gpt-entry-size", property="P14",
        needs="a partition array with entries of more than 128 bytes",
        breaks="entries are taken to follow each other without the space behind the known fields",
        edits=[(G, "self.fh.seek(base_offset + (part_num * self.gpt.partition_entry_size))",
                "self.fh.seek(base_offset + (part_num * len(c_gpt.GPT_PARTITION)))")],
        demo=PRE + '''
got = [(p.number, p.offset) for p in GPT(gpt({0: (100, 200), 1: (300, 400), 3: (500, 600)}, count=8, size=256)).partitions]
assert got == [(1, 51200), (2, 153600), (4, 256000)], got
''',
    ),
    dict(
        id="mbr-extended-lba-types", property="P13",
        needs="an extended partition of the Linux type",
        breaks="an extended partition of type 85h is listed as a partition, the logical ones in it are not",
        edits=[(M, "if partition.type in (0x05, 0x0F, 0x85):  # Extended", "if partition.type in (0x05, 0x0F):  # Extended")],
        demo=PRE + '''
disk = bytearray(512 * 256)
disk[:512] = mbr({0: (7, 1, 10), 1: (0x85, 20, 100)})
disk[20 * 512:21 * 512] = mbr({0: (0x83, 1, 20)})
got = [(p.type, p.offset, p.size) for p in MBR(BytesIO(bytes(disk))).partitions]
assert got == [(7, 512, 5120), (0x83, 21 * 512, 20 * 512)], got
''',
    ),
    dict(
        id="mbr-volume-bootsector", property="P13",
        needs="a boot loader that contains the name of a file system further on in its code",
        breaks="a file system name anywhere in the boot code makes the table be rejected",
        edits=[(M, "        sig = self.mbr.bootcode[3:11]\n", "        sig = self.mbr.bootcode[3:90]\n")],
        demo=PRE + '''
boot = bytearray(100)
boot[60:64] = b"NTFS"
assert len(MBR(BytesIO(mbr({0: (7, 1, 10)}, bytes(boot)))).partitions) == 1
boot[3:7] = b"NTFS"
try:
    MBR(BytesIO(mbr({0: (7, 1, 10)}, bytes(boot))))
except Exception:
    pass
else:
    raise SystemExit("volume boot sector accepted")
''',
    ),
    dict(
        id="apm-type-spaces", property="P15",
        needs="a partition the type or name of which begins or ends with a blank",
        breaks="leading and trailing blanks of partition types are dropped",
        edits=[(A, 'type=p.partition_type.rstrip(b"\\x00").decode(),', 'type=p.partition_type.split(b"\\x00")[0].strip().decode(),')],
        demo=PRE + '''
def entry(count, start, size, name, type_):
    return struct.pack(">2sHIII32s32s", b"PM", 0, count, start, size, name, type_).ljust(512, b"\\x00")

img = b"".join([entry(2, 1, 2, b"Apple", b"Apple_partition_map"), entry(2, 3, 4, b"x ", b" Other ")]) + bytes(8192)
assert [(p.name, p.type) for p in APM(BytesIO(img)).partitions] == [("Apple", "Apple_partition_map"), ("x ", " Other ")]
''',
    ),
    dict(
        id="bsd-first-partition", property="P16",
        needs="a 32-bit label with a partition that begins at the very start of the slice",
        breaks="the partition at the first sector of the slice is not listed",
        edits=[(B, "                if partition.p_offset < table_offset:\n", "                if partition.p_offset <= table_offset:\n")],
        demo=PRE + '''
got = [(p.number, p.offset, p.size) for p in BSD(BytesIO(label32({0: (100, 63, 7), 3: (200, 163, 7)}))).partitions]
assert got == [(1, 0, 51200), (4, 51200, 102400)], got
''',
    ),
    dict(
        id="bsd-second-magic", property="P16",
        needs="a damaged 32-bit label, only the second magic number of which is wrong",
        breaks="the second magic number of a 32-bit label is not checked",
        edits=[(B, "if (self.disklabel.d_magic, self.disklabel.d_magic2) != (c_bsd.BSD_MAGIC, c_bsd.BSD_MAGIC):",
                "if not {self.disklabel.d_magic, self.disklabel.d_magic2} & {c_bsd.BSD_MAGIC}:")],
        demo=PRE + '''
BSD(BytesIO(label32({0: (100, 63, 7)})))
try:
    BSD(BytesIO(label32({0: (100, 63, 7)}, magic2=0)))
except Exception:
    pass
else:
    raise SystemExit("damaged label accepted")
''',
    ),
    dict(
        id="disk-start-position", property="P17",
        needs="a source that is handed over at a position other than its start, and no GPT",
        breaks="every scheme after the first is looked for at the start of the source",
        edits=[(K, "                fh.seek(start)\n", "                fh.seek(start if scheme is GPT else 0)\n")],
        demo=PRE + '''
fh = BytesIO(bytes(512 * 8) + mbr({0: (7, 1, 10), 2: (0x83, 20, 5)}) + bytes(512 * 64))
fh.seek(512 * 8)
got = [(p.number, p.offset, p.size) for p in Disk(fh).partitions]
assert got == [(1, 9 * 512, 5120), (3, 28 * 512, 2560)], got
''',
    ),
    dict(
        id="disk-protective-only", property="P17",
        needs="a disk with a hybrid table of which the GPT cannot be read",
        breaks="a table with a protective entry next to other ones is accepted as an ordinary MBR",
        edits=[(K, "any(p.type == 0xEE for p in self.partitions)", "all(p.type == 0xEE for p in self.partitions)")],
        demo=PRE + '''
img = mbr({0: (0xEE, 1, 100), 1: (7, 200, 10)}) + bytes(512 * 64)
try:
    Disk(BytesIO(img))
except Exception:
    pass
else:
    raise SystemExit("accepted")
''',
    ),
]
