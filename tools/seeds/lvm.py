P = "dissect/volume/lvm/physical.py"
M = "dissect/volume/lvm/metadata.py"
L = "dissect/volume/lvm/lvm2.py"

PRE = '''
import struct
from io import BytesIO

from dissect.volume.lvm import LVM2
from dissect.volume.lvm.physical import LVM2Device, parse_metadata

SECTOR = 512
EXTENT = 8        # sectors


def pv(uuid, text, label_sector=1, label_offset=32, pe_start=2048, extents=32, tag=b"A"):
    out = bytearray((pe_start + extents * EXTENT) * SECTOR)
    base = label_sector * SECTOR
    out[base:base + 32] = struct.pack("<8sQII8s", b"LABELONE", label_sector, 0, label_offset, b"LVM2 001")
    p = base + label_offset
    size = extents * EXTENT * SECTOR
    out[p:p + 40] = struct.pack("<32sQ", uuid, size)
    out[p + 40:p + 72] = struct.pack("<QQQQ", pe_start * SECTOR, 0, 0, 0)
    out[p + 72:p + 104] = struct.pack("<QQQQ", 8 * SECTOR, 1000 * SECTOR, 0, 0)
    m = 8 * SECTOR
    raw = text.encode()
    out[m:m + 40] = struct.pack("<I16sIQQ", 0, b" LVM2 x[5A%r0N*>", 1, m, 1000 * SECTOR)
    out[m + 40:m + 64] = struct.pack("<QQII", 512, len(raw) + 1, 0, 0)
    out[m + 512:m + 512 + len(raw)] = raw
    for i in range(extents * EXTENT):
        o = (pe_start + i) * SECTOR
        out[o:o + SECTOR] = (tag * 4 + struct.pack(">I", i)).ljust(SECTOR, b".")
    return BytesIO(bytes(out))


def sector(tag, i):
    return (tag * 4 + struct.pack(">I", i)).ljust(SECTOR, b".")


UUID = b"abcdefABCDEF0123456789abcdefABCD"
DASHED = "abcdef-ABCD-EF01-2345-6789-abcd-efABCD"


def vg(lvs, extra=""):
    return f"""vg {{
id = "vgid"
seqno = 1
status = ["READ", "WRITE"]
flags = []
extent_size = {EXTENT}
max_lv = 0
max_pv = 0
physical_volumes {{
pv0 {{
id = "{DASHED}"
device = "/dev/sda"
status = ["ALLOCATABLE"]
flags = []
dev_size = 4096
pe_start = 2048
pe_count = 32
}}
}}
logical_volumes {{
{lvs}
}}
{extra}
}}
contents = "Text Format Volume Group"
version = 1
description = "made # by \\\\"hand\\\\""
creation_host = "host"
creation_time = 1500000000
"""


def lv(name, segments):
    body = ""
    for i, (start, count, first) in enumerate(segments):
        body += f"""segment{i + 1} {{
start_extent = {start}
extent_count = {count}
type = "striped"
stripe_count = 1
stripes = [
"pv0", {first}
]
}}
"""
    return f"""{name} {{
id = "lvid"
status = ["READ", "VISIBLE"]
flags = []
creation_time = 1500000000
segment_count = {len(segments)}
{body}}}
"""

'''

SEEDS = [
    dict(
        id="lvm-header-offset", property="P20",
        needs="a label that places the volume header somewhere else than right behind itself",
        breaks="the header of a physical volume is always read from right behind the label",
        edits=[(P, "        fh.seek(self.label_offset + self.label.offset)\n", "        fh.seek(self.label_offset + len(self.label))\n")],
        demo=PRE + '''
for off in (32, 64, 128):
    dev = LVM2Device(pv(UUID, vg(""), label_offset=off))
    assert dev.id.encode() == UUID, (off, dev.id)
    assert dev.metadata["version"] == 1
''',
    ),
    dict(
        id="lvm-label-scan", property="P20",
        needs="a label in the last of the sectors a label may be in",
        breaks="the last of the four sectors is not searched for a label",
        edits=[(P, "        for i in range(LABEL_SCAN_SECTORS):\n", "        for i in range(LABEL_SCAN_SECTORS - 1):\n")],
        demo=PRE + '''
for s in range(4):
    assert LVM2Device(pv(UUID, vg(""), label_sector=s)).id.encode() == UUID
''',
    ),
    dict(
        id="lvm-hash-in-text", property="P21",
        needs="a metadata text with a hash sign inside of a quoted string",
        breaks="a hash sign inside of a quoted string is taken as the start of a comment",
        edits=[(P, 's = re.sub(r"(#[^\\"]+?)$", "", string, flags=re.MULTILINE)', 's = re.sub(r"(#.*?)$", "", string, flags=re.MULTILINE)')],
        demo=PRE + '''
meta = parse_metadata('a = "x # y"\\nb = 3 # three\\n# whole line\\nc = "z"\\n')
assert (meta["a"], meta["b"], meta["c"]) == ("x # y", 3, "z"), meta
''',
    ),
    dict(
        id="lvm-equals-in-text", property="P21",
        needs="a metadata text with an equals sign inside of a value",
        breaks="the last equals sign of a line separates the name from the value",
        edits=[(P, '    key, value = s.strip().split("=", 1)\n', '    key, value = s.strip().rsplit("=", 1)\n')],
        demo=PRE + '''
meta = parse_metadata('tags = ["a=b", "c"]\\nhost = "x"\\n')
assert meta["tags"] == ["a=b", "c"] and meta["host"] == "x", meta
''',
    ),
    dict(
        id="lvm-segment-order", property="P22",
        needs="a logical volume the segments of which are not listed in the order of their extents",
        breaks="segments are laid out in the order they are listed in",
        edits=[(M, "            offset = segment.start_extent * extent_size\n            size = segment.extent_count * extent_size\n            stream.add(offset, size, segment.open())\n",
                "            size = segment.extent_count * extent_size\n            stream.add(offset, size, segment.open())\n            offset += size\n"),
               (M, "        for segment in self.segments:\n", "        offset = 0\n        for segment in self.segments:\n")],
        demo=PRE + '''
text = vg(lv("lv0", [(2, 3, 10), (0, 2, 20)]))
fh = LVM2(pv(UUID, text)).vg.logical_volumes["lv0"].open()
want = [20 * EXTENT + i for i in range(2 * EXTENT)] + [10 * EXTENT + i for i in range(3 * EXTENT)]
got = fh.read(5 * EXTENT * SECTOR)
assert got == b"".join(sector(b"A", i) for i in want)
''',
    ),
    dict(
        id="lvm-type-flags", property="P22",
        needs="a segment the type of which carries a flag",
        breaks="a segment with flags behind its type cannot be opened",
        edits=[(M, '        type = obj["type"].split("+", 1)[0]\n', '        type = obj["type"]\n')],
        demo=PRE + '''
text = vg(lv("lv0", [(0, 2, 4)])).replace('"striped"', '"striped+SOMEFLAG"')
got = LVM2(pv(UUID, text)).vg.logical_volumes["lv0"]
assert got.type == "striped" and got.segments[0].flags == ["SOMEFLAG"]
assert got.open().read(SECTOR) == sector(b"A", 4 * EXTENT)
''',
    ),
]
