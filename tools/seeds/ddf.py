D = "dissect/volume/ddf/ddf.py"

PRE = '''
import struct
from io import BytesIO

from dissect.volume.ddf.c_ddf import c_ddf
from dissect.volume.ddf.ddf import DDF

SECTOR = 512
TOTAL = 512       # sectors of a disk
HEAD = 448        # the metadata is behind it
RECLEN = 2        # sectors per configuration record


def disk(ref, refs, records, fill, max_primary=8, nrec=4):
    """records: [(guid, fields, [(reference, start), ...], secondary sequence)]"""
    out = bytearray(bytes([fill]) * (HEAD * SECTOR) + bytes((TOTAL - HEAD) * SECTOR))

    def put(off, obj):
        raw = obj.dumps()
        out[off:off + len(raw)] = raw

    hdr = c_ddf.DDF_Header(
        Signature=c_ddf.DDF_HEADER_SIGNATURE, DDF_Header_GUID=b"H" * 24, Primary_Header_LBA=HEAD,
        Secondary_Header_LBA=0xFFFFFFFFFFFFFFFF, Max_Primary_Element_Entries=max_primary,
        Configuration_Record_Length=RECLEN, Controller_Data_Section=1, Controller_Data_Section_Length=1,
        Physical_Disk_Records_Section=2, Physical_Disk_Records_Section_Length=4,
        Virtual_Disk_Records_Section=6, Virtual_Disk_Records_Section_Length=4,
        Configuration_Records_Section=10, Configuration_Records_Section_Length=nrec * RECLEN,
        Physical_Disk_Data_Section=30, Physical_Disk_Data_Section_Length=1,
    )
    base = HEAD * SECTOR
    put(base, hdr)
    put((TOTAL - 1) * SECTOR, hdr)
    put(base + SECTOR, c_ddf.Controller_Data(Signature=c_ddf.DDF_CONTROLLER_DATA_SIGNATURE))
    put(base + 2 * SECTOR, c_ddf.Physical_Disk_Records(Signature=c_ddf.DDF_PDR_SIGNATURE, Populated_PDEs=len(refs), Max_PDE_Supported=16))
    for i, r in enumerate(refs):
        put(base + 2 * SECTOR + len(c_ddf.Physical_Disk_Records) + i * len(c_ddf.Physical_Disk_Entry),
            c_ddf.Physical_Disk_Entry(PD_GUID=bytes([r]) * 24, PD_Reference=r, Configured_Size=HEAD, Block_Size=512))
    guids = list(dict.fromkeys(g for g, *_ in records))
    put(base + 6 * SECTOR, c_ddf.Virtual_Disk_Records(Signature=c_ddf.DDF_VD_RECORD_SIGNATURE, Populated_VDEs=len(guids), Max_VDE_Supported=16))
    for i, g in enumerate(guids):
        put(base + 6 * SECTOR + len(c_ddf.Virtual_Disk_Records) + i * len(c_ddf.Virtual_Disk_Entry),
            c_ddf.Virtual_Disk_Entry(VD_GUID=g, VD_Name=b"vd%d" % i))
    for i in range(nrec):
        off = base + 10 * SECTOR + i * RECLEN * SECTOR
        if i >= len(records):
            out[off:off + RECLEN * SECTOR] = b"\\xff" * (RECLEN * SECTOR)
            continue
        g, fields, members, seq = records[i]
        rec = c_ddf.VD_Configuration_Record(
            Signature=c_ddf.DDF_VDCR_SIGNATURE, VD_GUID=g, Secondary_Element_Seq=seq, Block_Size=512, **fields)
        put(off, rec)
        p = off + len(c_ddf.VD_Configuration_Record)
        slots = members + [(0xFFFFFFFF, 0)] * (max_primary - len(members))
        out[p:p + 12 * max_primary] = b"".join(struct.pack(">I", r) for r, _ in slots) + b"".join(struct.pack(">Q", s) for _, s in slots)
    put(base + 30 * SECTOR, c_ddf.Physical_Disk_Data(Signature=c_ddf.DDF_PDD_SIGNATURE, PD_GUID=bytes([ref]) * 24, PD_Reference=ref))
    return BytesIO(bytes(out))

'''

SEEDS = [
    dict(
        id="ddf-last-config-record", property="P10",
        needs="a configuration section that is full, or holds its only record in the last slot",
        breaks="the last record of the configuration section is not read",
        edits=[(D, "            self.anchor.Configuration_Records_Section_Length // self.anchor.Configuration_Record_Length,\n",
                "            (self.anchor.Configuration_Records_Section_Length - 1) // self.anchor.Configuration_Record_Length,\n")],
        demo=PRE + '''
f = dict(Primary_Element_Count=1, Strip_Size=0, Primary_RAID_Level=0, Secondary_Element_Count=1, VD_Size=16)
recs = [(bytes([65 + i]) * 24, f, [(1, 32 * i)], 0) for i in range(4)]
ddf = DDF([disk(1, [1], recs, 0x11)])
assert len(ddf.configurations[0].virtual_disks) == 4
''',
    ),
    dict(
        id="ddf-spanned-mirrors", property="P10",
        needs="a virtual disk made of two or more mirrors, the records of which are all present",
        breaks="the members of every secondary element take the places of the first one",
        edits=[(D, "            sec = 0 if vdcr.secondary_element_count == 1 else vdcr.secondary_element_seq\n",
                "            sec = 0 if vdcr.secondary_element_count <= 2 else vdcr.secondary_element_seq\n")],
        demo=PRE + '''
f = dict(Primary_Element_Count=2, Strip_Size=3, Primary_RAID_Level=1, RAID_Level_Qualifier=0, Secondary_Element_Count=2,
         Secondary_RAID_Level=0, VD_Size=64)
g = b"G" * 24
r0 = (g, f, [(1, 0), (2, 0)], 0)
r1 = (g, f, [(3, 0), (4, 0)], 1)
disks = [disk(i, [1, 2, 3, 4], [r0 if i < 3 else r1], 16 * i) for i in (1, 2, 3, 4)]
vd = DDF(disks).configurations[0].virtual_disks[0]
assert sorted(vd.disk_map) == [0, 1, 2, 3], vd.disk_map
data = vd.open().read(8192)
assert data == b"\\x10" * 4096 + b"\\x30" * 4096
''',
    ),
    dict(
        id="ddf-spare-slot", property="P10",
        needs="a record with an unused slot before a used one",
        breaks="an unused slot in the middle of the sequence shifts the members behind it",
        edits=[(D, "                if pds != 0xFFFFFFFF:\n                    i += 1\n", "                i += 1\n")],
        demo=PRE + '''
f = dict(Primary_Element_Count=3, Strip_Size=3, Primary_RAID_Level=0, RAID_Level_Qualifier=0, Secondary_Element_Count=1, VD_Size=64)
g = b"G" * 24
r = (g, f, [(1, 0), (0xFFFFFFFF, 0), (2, 0)], 0)
vd = DDF([disk(i, [1, 2], [r], 16 * i) for i in (1, 2)]).configurations[0].virtual_disks[0]
assert sorted(vd.disk_map) == [0, 1], vd.disk_map
''',
    ),
    dict(
        id="ddf-raid4-any-parity", property="P10",
        needs="a RAID4 virtual disk with its parity on the first disk",
        breaks="a layout that cannot be read is opened as if its parity were on the last disk",
        edits=[(D, "            if rlq != c_ddf.DDF_VDCR_RAID4_N:\n", "            if rlq not in (c_ddf.DDF_VDCR_RAID4_0, c_ddf.DDF_VDCR_RAID4_N):\n")],
        demo=PRE + '''
f = dict(Primary_Element_Count=3, Strip_Size=3, Primary_RAID_Level=4, RAID_Level_Qualifier=0, Secondary_Element_Count=1, VD_Size=64)
r = (b"G" * 24, f, [(1, 0), (2, 0), (3, 0)], 0)
try:
    DDF([disk(i, [1, 2, 3], [r], 16 * i) for i in (1, 2, 3)]).configurations[0].virtual_disks[0].open()
except ValueError:
    pass
else:
    raise AssertionError("opened a layout that is not supported")
f["RAID_Level_Qualifier"] = 1
r = (b"G" * 24, f, [(1, 0), (2, 0), (3, 0)], 0)
vd = DDF([disk(i, [1, 2, 3], [r], 16 * i) for i in (1, 2, 3)]).configurations[0].virtual_disks[0]
assert vd.open().read(8192) == b"\\x10" * 4096 + b"\\x20" * 4096
''',
    ),
]
