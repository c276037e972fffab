From 9e91c9486ded75b3efdfbdd6d7d0f3471c6b2d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:23 +0000
Subject: [PATCH 01/43] fix: read only the current stripe from a RAID4/5/6
 member

A read spanning multiple stripes appended the full remaining length from every
member, so the result was too long and everything after the first stripe was
wrong.
---
 dissect/volume/raid/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 2d1edeb..e5f55ae 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -366,7 +366,7 @@ class RAID456Stream(AlignedStream):
 
             offset_on_disk = dd_dev.offset + dd_start + offset_in_device
             dd_dev.fh.seek(offset_on_disk)
-            result.append(dd_dev.fh.read(length))
+            result.append(dd_dev.fh.read(read_length))
 
             length -= read_length
             offset += read_length
-- 
2.43.0


From 9941af8fb38232645a8153ddd917def8a9c63c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:23 +0000
Subject: [PATCH 02/43] fix: read only the current stripe from a RAID10 member

A read spanning multiple stripes appended the full remaining length from every
member, so the result was too long and everything after the first stripe was
wrong.
---
 dissect/volume/raid/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index e5f55ae..2216af6 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -424,7 +424,7 @@ class RAID10Stream(AlignedStream):
 
             offset_on_disk = device.offset + device_start + (stripe * stripe_size) + offset_in_stripe
             device.fh.seek(offset_on_disk)
-            result.append(device.fh.read(length))
+            result.append(device.fh.read(read_length))
 
             length -= read_length
             offset += read_length
-- 
2.43.0


From d357cefd8208800e6e821b5fe17f4d7df6694ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:20 +0000
Subject: [PATCH 03/43] fix: exclude the data offset from the length of a
 linear RAID member

A member contributes the part of its data section after the data offset.
Mapping its full size read past the end of the member, so the members
that follow were found at the wrong position.
---
 dissect/volume/raid/stream.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 2216af6..583964e 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -61,8 +61,9 @@ class LinearStream(MappingStream):
 
         offset = 0
         for disk_offset, disk in self.disk_map.values():
-            self.add(offset, disk.size, disk.open(), disk_offset)
-            offset += disk.size
+            size = disk.size - disk_offset
+            self.add(offset, size, disk.open(), disk_offset)
+            offset += size
 
 
 class Zone(NamedTuple):
-- 
2.43.0


From cba9eb2751411571b411eb4618946ae45fca2def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:20 +0000
Subject: [PATCH 04/43] fix: honour the data offset of a RAID1 member

The mirror was opened at the start of the member's data section, while
the volume starts at the data offset recorded in the disk map.
---
 dissect/volume/raid/raid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/raid/raid.py b/dissect/volume/raid/raid.py
index 55d1c6a..46ac0ea 100644
--- a/dissect/volume/raid/raid.py
+++ b/dissect/volume/raid/raid.py
@@ -69,8 +69,9 @@ class VirtualDisk:
             # Don't really care which mirror to read from, so just open the first disk we have.
             # We don't know if we have the first disk or the n-th disk so we select the first
             # available disk using an iterable.
-            _, (_, disk) = next(iter(self.disk_map.items()))
-            return disk.open()
+            _, (data_offset, disk) = next(iter(self.disk_map.items()))
+            fh = disk.open()
+            return RangeStream(fh, data_offset, disk.size - data_offset) if data_offset else fh
         if self.level in (Level.RAID4, Level.RAID5, Level.RAID6):
             return RAID456Stream(self)
         if self.level == Level.RAID10:
-- 
2.43.0


From 71061af0311b2b1c2a9a58987c8224fa40d1cae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:01 +0000
Subject: [PATCH 05/43] fix: compare rounded member sizes when counting RAID0
 strip zones

Members that differ only by less than a stripe belong to the same strip
zone. Comparing against the unrounded size counted a zone too many and
made opening such a set fail.
---
 dissect/volume/raid/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 583964e..4d5bf53 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -99,7 +99,7 @@ class RAID0Stream(AlignedStream):
                 if idx1 == idx2:
                     break
 
-                if rounded_sizes[dev1] == dev2.size:
+                if rounded_sizes[dev1] == rounded_sizes[dev2]:
                     has_same_size = True
                     break
 
-- 
2.43.0


From a8cb3389d251cdca4fea0feff690408c8b94edb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:01 +0000
Subject: [PATCH 06/43] fix: locate data in the later strip zones of a RAID0
 set

A strip zone past the first starts at dev_start on each of its members,
and spans only the members large enough to be in it. The start was not
added, and the members were looked up by their index in the whole set.
---
 dissect/volume/raid/stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 4d5bf53..6960663 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -166,8 +166,8 @@ class RAID0Stream(AlignedStream):
             stripe, offset_in_stripe = divmod(read_offset, stripe_size)
             chunk = offset_in_zone // (stripe_size * len(zone.devices))
 
-            offset_in_device = (chunk * stripe_size) + offset_in_stripe
-            device_start, device = zone.devices[stripe % len(zone.devices)]
+            offset_in_device = zone.dev_start + (chunk * stripe_size) + offset_in_stripe
+            device_start, device = list(zone.devices.values())[stripe % len(zone.devices)]
 
             stripe_remaining = stripe_size - offset_in_stripe
             read_length = min(length, stripe_remaining)
-- 
2.43.0


From 89f2ee68e5c7c4d63895c90357a0b42256aa2dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:13 +0000
Subject: [PATCH 07/43] fix: honour the original layout of multi-zone RAID0
 sets

Sets created with the original layout select the member by the stripe
number within the whole set, also in the second and later strip zones.
The layout in the superblock was ignored and the alternate one assumed.
---
 dissect/volume/raid/stream.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 6960663..1112050 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -66,6 +66,11 @@ class LinearStream(MappingStream):
             offset += size
 
 
+# The layout of a RAID0 set with multiple strip zones where the member is selected by the stripe number in the whole set
+# The alternate layout (2) selects the member by the stripe number in the strip zone
+RAID0_ORIG_LAYOUT = 1
+
+
 class Zone(NamedTuple):
     zone_end: int
     dev_start: int
@@ -160,7 +165,11 @@ class RAID0Stream(AlignedStream):
                 break
 
             read_offset = offset_in_zone
-            if len(self.zones) == 1 or len(self.zones[1].devices) == 1:
+            if (
+                len(self.zones) == 1
+                or len(self.zones[1].devices) == 1
+                or self.virtual_disk.layout == RAID0_ORIG_LAYOUT
+            ):
                 read_offset = offset
 
             stripe, offset_in_stripe = divmod(read_offset, stripe_size)
-- 
2.43.0


From e2a82aa72b84c9f899c59d986f3a3242c3731f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:38 +0000
Subject: [PATCH 08/43] fix: take the MD update time from its own field

---
 dissect/volume/md/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 6d9ecf4..8d3618e 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -132,7 +132,7 @@ class MDPhysicalDisk(PhysicalDisk):
             self.raid_disk = self.sb.disks[self.dev_number].raid_disk
 
         self.creation_time = _parse_ts(self.sb.ctime)
-        self.update_time = _parse_ts(self.sb.ctime)
+        self.update_time = _parse_ts(self.sb.utime)
         self.level = self.sb.level
         self.layout = self.sb.layout
         self.raid_disks = self.sb.raid_disks
-- 
2.43.0


From 000edbe339fd87bca526bc859303c0a038bf165b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:41 +0000
Subject: [PATCH 09/43] fix: align the MD version 1.0 superblock to 4 KiB

---
 dissect/volume/md/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 8d3618e..f363d06 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -161,7 +161,7 @@ def find_super_block(fh: BinaryIO) -> tuple[int | None, int | None, int | None]:
         (size & ~(c_md.MD_RESERVED_SECTORS - 1)) - c_md.MD_RESERVED_SECTORS,
         # Major version 1
         # 0: At least 8K, but less than 12K, from end of device
-        size - 8 * 2,
+        (size - 8 * 2) & ~(4 * 2 - 1),
         # 1: At start of device
         0,
         # 2: 4K from start of device.
-- 
2.43.0


From 546d7600fe15cba52fd8ce8060da2613131850e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:44 +0000
Subject: [PATCH 10/43] fix: read the level of a 0.90 MD superblock as signed

---
 dissect/volume/md/c_md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/c_md.py b/dissect/volume/md/c_md.py
index a46e868..7924de1 100644
--- a/dissect/volume/md/c_md.py
+++ b/dissect/volume/md/c_md.py
@@ -85,7 +85,7 @@ typedef struct mdp_superblock_s {
     uint32  gvalid_words;                           /*  4 Number of used words in this section */
     char    set_uuid0[4];                           /*  5 Raid set identifier */
     uint32  ctime;                                  /*  6 Creation time */
-    uint32  level;                                  /*  7 Raid personality */
+    int32   level;                                  /*  7 Raid personality */
     uint32  size;                                   /*  8 Apparent size of each individual disk */
     uint32  nr_disks;                               /*  9 total disks in the raid set */
     uint32  raid_disks;                             /* 10 disks in a fully functional raid set */
-- 
2.43.0


From cd071a898a8dd4210e68e336770d4b2f8e610f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:47 +0000
Subject: [PATCH 11/43] fix: do not treat an MD journal device as the first
 data member

---
 dissect/volume/md/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index f363d06..e48c7d9 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -113,7 +113,7 @@ class MDPhysicalDisk(PhysicalDisk):
 
             role = self.sb.dev_roles[self.sb.dev_number]
             if role == c_md.MD_DISK_ROLE_JOURNAL:
-                self.raid_disk = 0
+                self.raid_disk = None
             elif role <= c_md.MD_DISK_ROLE_MAX:
                 self.raid_disk = role
             else:
-- 
2.43.0


From 02bce6d9023e94dc3b2c7a87fc6385f7866b1e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:50 +0000
Subject: [PATCH 12/43] fix: allow spare devices in an MD set

---
 dissect/volume/md/md.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index e48c7d9..9f90c1d 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -38,7 +38,8 @@ class MD(RAID):
 
 class MDConfiguration(Configuration):
     def __init__(self, physical_disks: list[MDPhysicalDisk]):
-        physical_disks = sorted(physical_disks, key=operator.attrgetter("raid_disk"))
+        # Spares and other devices without a slot come last
+        physical_disks = sorted(physical_disks, key=lambda disk: (disk.raid_disk is None, disk.raid_disk or 0))
 
         if len({disk.set_uuid for disk in physical_disks}) != 1:
             raise ValueError("Multiple MD sets detected, supply only the disks of a single set")
-- 
2.43.0


From dd1716a10e819d37c8f7e507ddddecc51ca03128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:46 +0000
Subject: [PATCH 13/43] fix: convert DDF starting blocks to byte offsets

---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 7dcb0b1..12e15fb 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -66,7 +66,7 @@ class DDFConfiguration(Configuration):
             i = 0
             for starting_block, pds in zip(vdcr.starting_block, vdcr.physical_disk_sequence, strict=False):
                 if matched_pd := pd_map.get(pds):
-                    vd_pd_map[sec * count + i] = (starting_block, matched_pd)
+                    vd_pd_map[sec * count + i] = (starting_block * matched_pd.block_size, matched_pd)
 
                 if pds != 0xFFFFFFFF:
                     i += 1
-- 
2.43.0


From 11198c077e7be49da4c6a6c30bdedda955253810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:50 +0000
Subject: [PATCH 14/43] fix: continue past unused DDF configuration records

---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 12e15fb..1ef11a2 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -292,13 +292,13 @@ def _read_virtual_disk_configuration_records(
     result = []
     for _ in range(count):
         fh.seek(offset)
+        offset += size
         obj = VirtualDiskConfigurationRecord(fh, num_entries)
 
         if obj.header.Signature != c_ddf.DDF_VDCR_SIGNATURE:
             continue
 
         result.append(obj)
-        offset += size
 
     return result
 
-- 
2.43.0


From c9092f9f642be5ec1a67809d549229554e824a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:53 +0000
Subject: [PATCH 15/43] fix: test the unicode name flag of a DDF virtual disk

---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 1ef11a2..7b2f932 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -229,7 +229,7 @@ class VirtualDiskRecord:
         self.state = self.header.VD_State
         self.init_state = self.header.Init_State
         name = self.header.VD_Name.split(b"\x00")[0]
-        self.name = name.decode(encoding="utf-8") if self.type & 0x02 else name.decode(encoding="ascii")
+        self.name = name.decode(encoding="utf-8") if self.type & c_ddf.DDF_VDE_UNICODE_NAME else name.decode(encoding="ascii")
 
     def __repr__(self) -> str:
         return f"<VirtualDiskRecord guid={self.guid} number={self.number} type={self.type:#x} name={self.name!r}>"
-- 
2.43.0


From 368776baa2c7a9c588dc1084f782e1baee763580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:57 +0000
Subject: [PATCH 16/43] fix: raise a DDFError for a damaged DDF section

---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 7b2f932..17057d3 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -270,7 +270,7 @@ def _read_section_header(
 ) -> c_ddf.Physical_Disk_Records | c_ddf.Virtual_Disk_Records | c_ddf.Controller_Data | c_ddf.Physical_Disk_Data:
     obj = structure(fh)
     if obj.Signature != signature:
-        raise DDFError(f"Invalid {structure.name} header. Signature: {obj.Signature:#010x}, expected {signature:#x}")
+        raise DDFError(f"Invalid {structure.__name__} header. Signature: {obj.Signature:#010x}, expected {signature:#x}")
     return obj
 
 
-- 
2.43.0


From b5d85d00137206463eebaf994bd77e3492cc457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:00 +0000
Subject: [PATCH 17/43] fix: read the timestamp in a DDF virtual disk GUID as
 big-endian

---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 17057d3..a8e82c3 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -240,7 +240,7 @@ class VirtualDiskConfigurationRecord:
         self.header = c_ddf.VD_Configuration_Record(fh)
 
         self.guid = self.header.VD_GUID
-        self.guid_timestamp = ts.from_unix(DECADE + int.from_bytes(self.guid[16:20], "little"))
+        self.guid_timestamp = ts.from_unix(DECADE + int.from_bytes(self.guid[16:20], "big"))
         self.timestamp = ts.from_unix(DECADE + self.header.Timestamp)
         self.sequence_number = self.header.Sequence_Number
         self.primary_element_count = self.header.Primary_Element_Count
-- 
2.43.0


From 4c55ee865e816ec31286e4f717bd87da9f276279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:09 +0000
Subject: [PATCH 18/43] fix: find DDF virtual disk entries behind unused ones

---
 dissect/volume/ddf/ddf.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index a8e82c3..bb8b512 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -283,7 +283,22 @@ def _read_physical_disk_records(fh: BinaryIO, offset: int) -> list[PhysicalDiskR
 def _read_virtual_disk_records(fh: BinaryIO, offset: int) -> list[VirtualDiskRecord]:
     fh.seek(offset)
     header = _read_section_header(fh, c_ddf.Virtual_Disk_Records, c_ddf.DDF_VD_RECORD_SIGNATURE)
-    return [VirtualDiskRecord(fh) for _ in range(header.Populated_VDEs)]
+
+    # Populated entries are not necessarily consecutive, unused ones have a GUID of all 0xFF
+    result = []
+    for i in range(header.Max_VDE_Supported):
+        if len(result) == header.Populated_VDEs:
+            break
+
+        entry_offset = offset + len(c_ddf.Virtual_Disk_Records) + i * len(c_ddf.Virtual_Disk_Entry)
+        fh.seek(entry_offset)
+        if fh.read(24) == b"\xff" * 24:
+            continue
+
+        fh.seek(entry_offset)
+        result.append(VirtualDiskRecord(fh))
+
+    return result
 
 
 def _read_virtual_disk_configuration_records(
-- 
2.43.0


From 21dfcc27dc99723f991e48e8380fddcd4940dc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:35 +0000
Subject: [PATCH 19/43] fix: read a vinum subdisk from its offset on the drive

---
 dissect/volume/vinum/vinum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/vinum/vinum.py b/dissect/volume/vinum/vinum.py
index 721021e..af9909b 100644
--- a/dissect/volume/vinum/vinum.py
+++ b/dissect/volume/vinum/vinum.py
@@ -176,7 +176,10 @@ class VinumConfiguration(Configuration):
                         sd.state != SDState.DOWN and sd.state != SDState.DEGRADED and sd.state != SDState.INITIALIZING
                     ):  # sd's in these states are probably not fit to use
                         if sd.drive in disks_by_name:
-                            disk_map[idx] = (0, disks_by_name[sd.drive])
+                            # The driveoffset is relative to the start of the drive, the data
+                            # offset of a disk is relative to the start of its data area
+                            data_offset = sd.driveoffset - c_vinum.GV_DATA_START if sd.driveoffset else 0
+                            disk_map[idx] = (data_offset, disks_by_name[sd.drive])
                         else:
                             log.warning("Physical disk %r for sd %r is missing, ignoring sd", sd.drive, sd.name)
                     else:
-- 
2.43.0


From d55e3b8e63ef7e6b8aaa8e2da45c3c4de1d1cefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:05 +0000
Subject: [PATCH 20/43] fix: resolve each extended MBR partition relative to
 itself

---
 dissect/volume/disk/schemes/mbr.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dissect/volume/disk/schemes/mbr.py b/dissect/volume/disk/schemes/mbr.py
index 7aa56ab..c358a71 100644
--- a/dissect/volume/disk/schemes/mbr.py
+++ b/dissect/volume/disk/schemes/mbr.py
@@ -66,15 +66,13 @@ class MBR:
             part_offset = offset + partition.sector_ofs * self.sector_size
 
             if partition.type in (0x05, 0x0F, 0x85):  # Extended
-                if not ebr_offset:
-                    ebr_offset = part_offset
-                else:
+                if ebr_offset:
                     # Chained extended MBRs are relative to the first one
                     part_offset = ebr_offset + partition.sector_ofs * self.sector_size
 
                 self.fh.seek(part_offset)
                 e_mbr = c_mbr.mbr_s(self.fh)
-                yield from self._partitions(e_mbr, part_offset, num_start + num, ebr_offset=ebr_offset)
+                yield from self._partitions(e_mbr, part_offset, num_start + num, ebr_offset=ebr_offset or part_offset)
 
                 continue
 
-- 
2.43.0


From cdcb5d06345e38ddea53d7f5b2a9603f531d358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:08 +0000
Subject: [PATCH 21/43] fix: read APM entries a block apart

---
 dissect/volume/disk/schemes/apm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dissect/volume/disk/schemes/apm.py b/dissect/volume/disk/schemes/apm.py
index 4645580..a86e362 100644
--- a/dissect/volume/disk/schemes/apm.py
+++ b/dissect/volume/disk/schemes/apm.py
@@ -44,22 +44,25 @@ class APM:
         self.fh = fh
         self.sector_size = sector_size
         self.apm = c_apm.partition_entry(fh)
+        self._block_size = sector_size
 
         if self.apm.signature == b"ER":
             # We parsed the boot jump, the offset is conveniently in reserved_1 field
+            self._block_size = self.apm.reserved_1
             fh.seek(self.apm.reserved_1)
             self.apm = c_apm.partition_entry(fh)
 
         if self.apm.signature != b"PM":
             raise DiskError(f"Invalid APM signature, expected 'PM', got {self.apm.signature!r}.")
 
-        self._partitions_offset = fh.tell()
+        # Each entry occupies a whole block
+        self._partitions_offset = fh.tell() - len(self.apm)
         self.partitions: list[Partition] = list(self._partitions())
 
     def _partitions(self) -> Iterator[Partition]:
-        self.fh.seek(self._partitions_offset)
         for i in range(self.apm.partition_count):
-            p = self.apm if i == 0 else c_apm.partition_entry(self.fh)
+            self.fh.seek(self._partitions_offset + i * self._block_size)
+            p = c_apm.partition_entry(self.fh)
 
             yield Partition(
                 disk=self,
-- 
2.43.0


From a21527425359253a37e9e7303d5aa18448470c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:11 +0000
Subject: [PATCH 22/43] fix: open disks with a BSD slice that has no disklabel

---
 dissect/volume/disk/disk.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/disk/disk.py b/dissect/volume/disk/disk.py
index 183a508..76a9f7e 100644
--- a/dissect/volume/disk/disk.py
+++ b/dissect/volume/disk/disk.py
@@ -39,8 +39,13 @@ class Disk:
         for partition in main_scheme.partitions:
             # BSD disklabel can also be relative from any other partition
             if partition.type in BSD.TYPES:
-                self.scheme = BSD(partition.open(), sector_size=self.sector_size)
-                self.partitions.extend(self.scheme.partitions)
+                try:
+                    self.scheme = BSD(partition.open(), sector_size=self.sector_size)
+                except Exception:
+                    # Not every such partition holds a disklabel
+                    self.partitions.append(partition)
+                else:
+                    self.partitions.extend(self.scheme.partitions)
             else:
                 self.partitions.append(partition)
 
-- 
2.43.0


From ec65a1a1a1317b0fe282ce559b785429080aca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:56 +0000
Subject: [PATCH 23/43] fix: read mirrored vinum volumes from a complete plex

---
 dissect/volume/vinum/vinum.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dissect/volume/vinum/vinum.py b/dissect/volume/vinum/vinum.py
index af9909b..c691376 100644
--- a/dissect/volume/vinum/vinum.py
+++ b/dissect/volume/vinum/vinum.py
@@ -205,12 +205,19 @@ class VinumConfiguration(Configuration):
                     # are named automatically, they have a pseudo order due to
                     # there names being constructed with p0, p1, etc.
                     splexes = sorted(plexes, key=lambda plex: plex.name)
+                    incomplete = set()
                     for idx, plex in enumerate(splexes):
                         disk_map = disk_map_by_plex_by_volume[volume.name][plex.name]
                         if disk_map:
                             sds = sds_by_plex_by_volume[volume.name][plex.name]
                             plex_disk = VinumPlexDisk(volume, plex, sds, disk_map)
                             plex_map[idx] = (0, plex_disk)
+                            if len(disk_map) < len(sds):
+                                incomplete.add(idx)
+
+                    # A plex that misses some of its sds is of no use if another one has them all
+                    if len(incomplete) < len(plex_map):
+                        plex_map = {idx: value for idx, value in plex_map.items() if idx not in incomplete}
 
                     if plex_map:
                         virtual_disks.append(VinumMirrorDisk(volume, plexes, plex_map))
-- 
2.43.0


From c92118bfd4b11baedbc2ab783148ee04614c14fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:06 +0000
Subject: [PATCH 24/43] fix: keep reading thin devices behind an unmapped block

---
 dissect/volume/dm/thin.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/dissect/volume/dm/thin.py b/dissect/volume/dm/thin.py
index fe18550..c4a7bf8 100644
--- a/dissect/volume/dm/thin.py
+++ b/dissect/volume/dm/thin.py
@@ -75,23 +75,20 @@ class ThinDevice(AlignedStream):
 
         result = []
         while length > 0:
+            read_size = min(length, self.block_size)
+
             block_info = data_mapping.lookup([self.device_id, block])
             if block_info is None:
-                remaining = length
-                if self.size is None or (remaining := self.size - offset) > 0:
-                    return b"\x00" * min(length, remaining)
-
-                break
+                # Blocks that are not mapped read as zeroes
+                result.append(b"\x00" * read_size)
+            else:
+                block_time = int.from_bytes(block_info, "little")
+                data_block, _ = _unpack_block_time(block_time)
 
-            block_time = int.from_bytes(block_info, "little")
-            data_block, _ = _unpack_block_time(block_time)
-
-            read_size = min(length, self.block_size)
-            data_fh.seek(data_block * self.block_size)
-            result.append(data_fh.read(read_size))
+                data_fh.seek(data_block * self.block_size)
+                result.append(data_fh.read(read_size))
 
             length -= read_size
-            offset += read_size
             block += 1
 
         return b"".join(result)
-- 
2.43.0


From f75a3325fc6c28d69a47da8734346ccf222cbac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:09 +0000
Subject: [PATCH 25/43] fix: do not follow a damaged thin pool B-tree forever

---
 dissect/volume/dm/btree.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dissect/volume/dm/btree.py b/dissect/volume/dm/btree.py
index 8cf31b3..7a56d3f 100644
--- a/dissect/volume/dm/btree.py
+++ b/dissect/volume/dm/btree.py
@@ -4,6 +4,7 @@ from functools import lru_cache
 from typing import BinaryIO
 
 from dissect.volume.dm.c_dm import SECTOR_SIZE, c_dm
+from dissect.volume.exceptions import DMError
 
 
 class BTree:
@@ -37,7 +38,12 @@ class BTree:
 
     def _lookup(self, root: int, key: int, want_high: bool = False) -> tuple[int | None, bytes | None]:
         block = root
+        seen = set()
         while True:
+            if block in seen:
+                raise DMError(f"Loop in B-tree at block {block}")
+            seen.add(block)
+
             node = self._read_node(block)
 
             low = -1
@@ -64,6 +70,8 @@ class BTree:
                 block = int.from_bytes(node.value(result), "little")
             elif node.is_leaf:
                 return node.key(result), node.value(result)
+            else:
+                raise DMError(f"Invalid B-tree node at block {block}")
 
 
 class Node:
-- 
2.43.0


From c36be4d2fd8e057ec7a11873473ef7d33f6e8b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:01 +0000
Subject: [PATCH 26/43] fix: skip empty and ignored LVM metadata areas

A metadata area without a text made the physical volume unreadable, and
the text of an area marked as ignored was used although it is outdated.
---
 dissect/volume/lvm/physical.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index 17ba161..588397e 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -66,9 +66,12 @@ class LVM2Device:
         if not self._metadata_areas:
             return None
 
-        # Only support the first metadata area for now
-        # Unsure when a second area is used
-        mda_header, raw_locn = self._metadata_areas[0]
+        for mda_header, raw_locn in self._metadata_areas:
+            # Skip areas that hold no metadata, or that are marked to be ignored
+            if raw_locn and not raw_locn[0].flags & c_lvm.RAW_LOCN_IGNORED:
+                break
+        else:
+            return None
 
         self.fh.seek(mda_header.start + raw_locn[0].offset)
         return parse_metadata(self.fh.read(raw_locn[0].size - 1).decode())
-- 
2.43.0


From e83f8e3624b6df7c7255bb4a3dd787c2b560278d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:04 +0000
Subject: [PATCH 27/43] fix: read LVM metadata that wraps around its area

The area is a circular buffer. Text reaching its end goes on behind the
area header, not in whatever follows the area.
---
 dissect/volume/lvm/c_lvm2.py   |  2 ++
 dissect/volume/lvm/physical.py | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/dissect/volume/lvm/c_lvm2.py b/dissect/volume/lvm/c_lvm2.py
index 3481010..8f13df4 100644
--- a/dissect/volume/lvm/c_lvm2.py
+++ b/dissect/volume/lvm/c_lvm2.py
@@ -46,6 +46,8 @@ SECTOR_SIZE = 512
 
 LABEL_SCAN_SECTORS = 4
 
+MDA_HEADER_SIZE = 512
+
 STATUS_FLAG_ALLOCATABLE = "ALLOCATABLE"  # pv only
 STATUS_FLAG_RESIZEABLE = "RESIZEABLE"  # vg only
 STATUS_FLAG_READ = "READ"
diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index 588397e..e1cc9c4 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -9,7 +9,7 @@ from typing import TYPE_CHECKING, Any, BinaryIO
 from dissect.util.stream import RunlistStream
 
 from dissect.volume.exceptions import LVM2Error
-from dissect.volume.lvm.c_lvm2 import LABEL_SCAN_SECTORS, SECTOR_SIZE, c_lvm
+from dissect.volume.lvm.c_lvm2 import LABEL_SCAN_SECTORS, MDA_HEADER_SIZE, SECTOR_SIZE, c_lvm
 
 if TYPE_CHECKING:
     from collections.abc import Iterator
@@ -73,8 +73,17 @@ class LVM2Device:
         else:
             return None
 
-        self.fh.seek(mda_header.start + raw_locn[0].offset)
-        return parse_metadata(self.fh.read(raw_locn[0].size - 1).decode())
+        offset, size = raw_locn[0].offset, raw_locn[0].size - 1
+        # The metadata area is a circular buffer, text that reaches its end continues behind the header
+        remaining = min(size, mda_header.size - offset)
+
+        self.fh.seek(mda_header.start + offset)
+        buf = self.fh.read(remaining)
+        if remaining < size:
+            self.fh.seek(mda_header.start + MDA_HEADER_SIZE)
+            buf += self.fh.read(size - remaining)
+
+        return parse_metadata(buf.decode())
 
     def read_sectors(self, sector: int, count: int) -> bytes:
         r = []
-- 
2.43.0


From d5fef86b906f0fa8abd39eed72a25c12c113e46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:06 +0000
Subject: [PATCH 28/43] fix: allow blank lines and trailing comments in LVM
 metadata arrays

Only a line ending in the bracket itself ended an array, an empty line
raised IndexError.
---
 dissect/volume/lvm/physical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index e1cc9c4..814e12b 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -162,8 +162,9 @@ def _parse_key_value(s: str, it: Iterator[str]) -> tuple[str, Any]:
     if value[0] == "[" and value[-1] != "]":
         lines = [value]
         for line in it:
+            line = line.strip()
             lines.append(line)
-            if line[-1] == "]":
+            if line.endswith("]"):
                 break
         value = "".join(lines)
 
-- 
2.43.0


From 4da9420159b620d7afc6e83c62e0240749b55427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:35 +0000
Subject: [PATCH 29/43] fix: use the newest LVM metadata of all physical
 volumes

The metadata came from the first physical volume only. It is outdated
when that volume missed an update, and absent when the volume has no
metadata area.
---
 dissect/volume/lvm/lvm2.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/lvm2.py b/dissect/volume/lvm/lvm2.py
index f49e428..acf8828 100644
--- a/dissect/volume/lvm/lvm2.py
+++ b/dissect/volume/lvm/lvm2.py
@@ -28,7 +28,12 @@ class LVM2:
         devices = [LVM2Device(fh) if not isinstance(fh, LVM2Device) else fh for fh in self.fh]
         self.devices = {device.id: device for device in devices}
 
-        self.metadata = devices[0].metadata
+        metadata = [device.metadata for device in devices if device.metadata is not None]
+        if not metadata:
+            raise LVM2Error("None of the physical volumes has metadata")
+
+        # Not every physical volume has metadata, and on some of them it can be outdated
+        self.metadata = max(metadata, key=_seqno)
         self.contents: str = self.metadata["contents"]
         self.version: int = self.metadata["version"]
         self.description: str | None = self.metadata.get("description")
@@ -49,3 +54,7 @@ class LVM2:
     @property
     def vg(self) -> VolumeGroup:
         return self.volume_group
+
+
+def _seqno(metadata: dict) -> int:
+    return max((value["seqno"] for value in metadata.values() if isinstance(value, dict)), default=0)
-- 
2.43.0


From fa69ff3c8f229d9d1fa3a9f98af4e2f87baee226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:37 +0000
Subject: [PATCH 30/43] fix: convert the creation time of LVM logical volumes

It is declared as a datetime, but was left as the number in the metadata.
---
 dissect/volume/lvm/metadata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 700d5f6..03ec43c 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -237,6 +237,9 @@ class LogicalVolume(MetaBase):
         self._volume_group = parent
         self._segments = [Segment.from_dict(v, name=k, parent=self) for k, v in obj.items() if isinstance(v, dict)]
 
+        if self.creation_time:
+            self.creation_time = ts.from_unix(self.creation_time)
+
 
 @dataclass(init=False)
 class HistoricalLogicalVolume(MetaBase):
-- 
2.43.0


From af353a5158e5b16b3a29693427c961da56be19e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:40 +0000
Subject: [PATCH 31/43] fix: read LVM mirror segments from their place in the
 image

Every segment of a mirrored volume was read from the start of the image.
---
 dissect/volume/lvm/metadata.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 03ec43c..6356b29 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -7,7 +7,7 @@ from types import UnionType
 from typing import TYPE_CHECKING, BinaryIO, get_args, get_origin, get_type_hints
 
 from dissect.util import ts
-from dissect.util.stream import MappingStream
+from dissect.util.stream import MappingStream, RangeStream
 
 from dissect.volume.dm.thin import ThinPool
 from dissect.volume.exceptions import LVM2Error
@@ -410,11 +410,13 @@ class MirrorSegment(Segment):
     mirrors: list[tuple[str, int]] | None
 
     def open(self) -> BinaryIO:
+        extent_size = self._logical_volume._volume_group.extent_size * SECTOR_SIZE
+
         # Just open the first mirror we can
-        for lv_name, _ in self.mirrors:
+        for lv_name, extent_offset in self.mirrors:
             try:
                 lv = self._logical_volume._volume_group.logical_volumes[lv_name]
-                return lv.open()
+                return RangeStream(lv.open(), extent_offset * extent_size, self.extent_count * extent_size)
             except Exception:  # noqa: PERF203
                 pass
         else:
-- 
2.43.0


From 1742ba65ce55c4e5f223d7da5ae8bbea63511a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:42 +0000
Subject: [PATCH 32/43] fix: interleave the stripes of striped LVM segments

The stripes were laid out one behind the other, so that everything but
the first chunk of a striped volume was read from the wrong place.
---
 dissect/volume/lvm/metadata.py | 45 ++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 6356b29..e4ec609 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -7,7 +7,7 @@ from types import UnionType
 from typing import TYPE_CHECKING, BinaryIO, get_args, get_origin, get_type_hints
 
 from dissect.util import ts
-from dissect.util.stream import MappingStream, RangeStream
+from dissect.util.stream import AlignedStream, MappingStream, RangeStream
 
 from dissect.volume.dm.thin import ThinPool
 from dissect.volume.exceptions import LVM2Error
@@ -381,7 +381,7 @@ class StripedSegment(Segment):
 
         opened_pv = {}
 
-        offset = 0
+        stripes = []
         for pv_name, extent_offset in self.stripes:
             if pv_name not in opened_pv:
                 pv_fh = pv[pv_name].open()
@@ -389,10 +389,13 @@ class StripedSegment(Segment):
             else:
                 pv_fh = opened_pv[pv_name]
 
-            stripe_size = (self.stripe_size or self.extent_count) * extent_size
-            stream.add(offset, stripe_size, pv_fh, extent_offset * extent_size)
-            offset += stripe_size
+            stripes.append((pv_fh, extent_offset * extent_size))
 
+        size = self.extent_count * extent_size
+        if len(stripes) > 1:
+            return StripedStream(stripes, self.stripe_size * SECTOR_SIZE, size)
+
+        stream.add(0, size, *stripes[0])
         return stream
 
     def _from_dict(self, obj: dict, name: str | None = None, parent: MetaBase | None = None) -> None:
@@ -400,6 +403,38 @@ class StripedSegment(Segment):
         self.stripes = [tuple(self.stripes[i : i + 2]) for i in range(0, len(self.stripes), 2)]
 
 
+class StripedStream(AlignedStream):
+    """A stream over data that is distributed over multiple stripes, in chunks of the stripe size.
+
+    Args:
+        stripes: A list of ``(fh, offset)`` tuples of the file-like object of every stripe and its offset therein.
+        stripe_size: The size in bytes of the chunks.
+        size: The size in bytes of the stream.
+    """
+
+    def __init__(self, stripes: list[tuple[BinaryIO, int]], stripe_size: int, size: int):
+        super().__init__(size, SECTOR_SIZE)
+        self.stripes = stripes
+        self.stripe_size = stripe_size
+
+    def _read(self, offset: int, length: int) -> bytes:
+        result = []
+
+        while length > 0:
+            chunk, offset_in_chunk = divmod(offset, self.stripe_size)
+            row, stripe = divmod(chunk, len(self.stripes))
+            read_size = min(length, self.stripe_size - offset_in_chunk)
+
+            fh, stripe_offset = self.stripes[stripe]
+            fh.seek(stripe_offset + row * self.stripe_size + offset_in_chunk)
+            result.append(fh.read(read_size))
+
+            offset += read_size
+            length -= read_size
+
+        return b"".join(result)
+
+
 @dataclass(init=False)
 class MirrorSegment(Segment):
     mirror_count: int
-- 
2.43.0


From 1cfb5898c9f3e467fbef06c1dc1ac97ecb92cb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:42 +0000
Subject: [PATCH 33/43] fix: read VSS stores without a previous bitmap

The oldest store has no previous bitmap. Reading it failed with an
error about an invalid identifier.
---
 dissect/volume/vss.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 9d3cf94..07b4881 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -305,7 +305,10 @@ class Store:
         return StoreBitmap(self, self.desc3.store_bitmap_offset)
 
     @cached_property
-    def previous_bitmap(self) -> StoreBitmap:
+    def previous_bitmap(self) -> StoreBitmap | None:
+        if self.desc3.store_previous_bitmap_offset == 0:
+            return None
+
         return StoreBitmap(self, self.desc3.store_previous_bitmap_offset)
 
     def read_block(self, block: int, active_store: Store | None = None) -> bytes:
-- 
2.43.0


From ffda12024bfc78b270f01af28ffadce7eb51c92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:18 +0000
Subject: [PATCH 34/43] fix: find DDF members behind unused entries of a
 configuration record

---
 dissect/volume/ddf/ddf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index bb8b512..eba63d5 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -65,6 +65,10 @@ class DDFConfiguration(Configuration):
 
             i = 0
             for starting_block, pds in zip(vdcr.starting_block, vdcr.physical_disk_sequence, strict=False):
+                # There can be unused entries between those of the members
+                if i == count:
+                    break
+
                 if matched_pd := pd_map.get(pds):
                     vd_pd_map[sec * count + i] = (starting_block * matched_pd.block_size, matched_pd)
 
@@ -254,8 +258,8 @@ class VirtualDiskConfigurationRecord:
         self.block_size = self.header.Block_Size
         self.rotate_parity_count = self.header.Rotate_Parity_Count
 
-        self.physical_disk_sequence = c_ddf.uint32[num_entries](fh)[: self.primary_element_count]
-        self.starting_block = c_ddf.uint64[num_entries](fh)[: self.primary_element_count]
+        self.physical_disk_sequence = c_ddf.uint32[num_entries](fh)
+        self.starting_block = c_ddf.uint64[num_entries](fh)
 
     def __repr__(self) -> str:
         return f"<VirtualDiskConfigurationRecord guid={self.guid}>"
-- 
2.43.0


From b51a6bb3a289faa7c56563c5406d51c46f6283ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:56 +0000
Subject: [PATCH 35/43] fix: stop on a loop in a VSS block chain

The lists of a volume shadow copy are chains of blocks. A chain whose
next offset leads back to an earlier block was followed forever.
---
 dissect/volume/vss.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 07b4881..b7a3400 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -656,8 +656,13 @@ def read_block(fh: BinaryIO, offset: int, struct: type[Structure]) -> tuple[Stru
     header, buf = read_block_data(fh, offset, struct)
 
     r = [buf]
+    seen = {offset}
     offset = header.next_offset
     while offset != 0:
+        if offset in seen:
+            raise Error(f"Loop in block chain at offset 0x{offset:x}")
+        seen.add(offset)
+
         nheader, buf = read_block_data(fh, offset, struct)
         offset = nheader.next_offset
         r.append(buf)
-- 
2.43.0


From 63297ecded382cd3f449cef3a54d1861915cb82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:00 +0000
Subject: [PATCH 36/43] fix: stop opening an LVM mirror that is built from
 itself

Every image of such a mirror ends in a RecursionError. It was taken as
an unavailable image at every level, so the next image was tried at
every level too, which takes forever with two or more images.
---
 dissect/volume/lvm/metadata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index e4ec609..06c635a 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -452,7 +452,10 @@ class MirrorSegment(Segment):
             try:
                 lv = self._logical_volume._volume_group.logical_volumes[lv_name]
                 return RangeStream(lv.open(), extent_offset * extent_size, self.extent_count * extent_size)
-            except Exception:  # noqa: PERF203
+            except RecursionError:  # noqa: PERF203
+                # A mirror of itself, every other mirror would only take us here again
+                raise
+            except Exception:
                 pass
         else:
             raise LVM2Error("No mirrors available")
-- 
2.43.0


From 55e70deef91ba74a51877b79133409ca6102ad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:04 +0000
Subject: [PATCH 37/43] fix: follow every extended partition table only once

A chain of extended partition tables that leads back to an earlier table
was followed until the recursion limit, and no partition was listed at
all. Tables that link to the same table twice were followed twice, which
doubles the work at every table.
---
 dissect/volume/disk/schemes/mbr.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dissect/volume/disk/schemes/mbr.py b/dissect/volume/disk/schemes/mbr.py
index c358a71..cb73bb3 100644
--- a/dissect/volume/disk/schemes/mbr.py
+++ b/dissect/volume/disk/schemes/mbr.py
@@ -54,6 +54,7 @@ class MBR:
         if self.mbr.bootcode[18:38] == b"Hit Esc for .altboot" or self.mbr.bootcode[168:174] == b"\r\nQNX ":
             raise DiskError("Sector is a QNX Boot Sector, not an MBR")
 
+        self._followed = {self.offset}
         self.partitions: list[Partition] = list(self._partitions(self.mbr, self.offset))
 
     def _partitions(
@@ -70,6 +71,11 @@ class MBR:
                     # Chained extended MBRs are relative to the first one
                     part_offset = ebr_offset + partition.sector_ofs * self.sector_size
 
+                # Follow every table only once, a damaged chain may lead back to an earlier one
+                if part_offset in self._followed:
+                    continue
+                self._followed.add(part_offset)
+
                 self.fh.seek(part_offset)
                 e_mbr = c_mbr.mbr_s(self.fh)
                 yield from self._partitions(e_mbr, part_offset, num_start + num, ebr_offset=ebr_offset or part_offset)
-- 
2.43.0


From 2916216a0560d8670118c691bae53bdf55455413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:04:33 +0000
Subject: [PATCH 38/43] fix: lvm: open volume groups with RAID volumes

LVM writes either the device count or the stripe count of a RAID segment, and
its other numbers only if they are set. All of them were expected to be there,
so that no volume group with a RAID volume could be opened.
---
 dissect/volume/lvm/metadata.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 06c635a..ccfee82 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -638,13 +638,14 @@ class VdoPoolSegment(Segment):
 
 @dataclass(init=False)
 class RAIDSegment(Segment):
-    device_count: int
-    stripe_count: int
-    region_size: int
-    stripe_size: int
-    writebehind: int
-    min_recovery_rate: int
-    max_recovery_rate: int
+    # Either of these is there, and the others only if they are set
+    device_count: int | None
+    stripe_count: int | None
+    region_size: int | None
+    stripe_size: int | None
+    writebehind: int | None
+    min_recovery_rate: int | None
+    max_recovery_rate: int | None
 
     data_copies: int | None
     data_offset: int | None
-- 
2.43.0


From a1685364a54b4bfac571a5d5818e238623875165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:04:36 +0000
Subject: [PATCH 39/43] fix: lvm: open volume groups with VDO pools that have
 features turned off

LVM leaves out the fields of the features of a VDO pool that are not used.
---
 dissect/volume/lvm/metadata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index ccfee82..2f9bd8b 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -615,13 +615,13 @@ class VdoPoolSegment(Segment):
     data: str
     header_size: int
     virtual_extents: int
-    use_compression: bool
-    use_deduplication: bool
-    use_metadata_hints: bool
+    use_compression: bool | None
+    use_deduplication: bool | None
+    use_metadata_hints: bool | None
     minimum_io_size: int
     block_map_cache_size_mb: int
     block_map_era_length: int
-    use_sparse_index: int
+    use_sparse_index: int | None
     index_memory_size_mb: int
     max_discard: int
     slab_size_mb: int
-- 
2.43.0


From 9e6e520042db57427d276345b3e55d566e7c7634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:19:51 +0000
Subject: [PATCH 40/43] fix: md: use the most recently updated of the disks
 that claim one slot

The superblock of a disk that was replaced still names the slot it had. Which of
the two disks was used depended on the order in which they were given.
---
 dissect/volume/md/md.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 9f90c1d..7a78eaf 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -51,7 +51,14 @@ class MDConfiguration(Configuration):
 class MDVirtualDisk(VirtualDisk):
     def __init__(self, physical_disks: list[MDPhysicalDisk]):
         reference_disk = sorted(physical_disks, key=operator.attrgetter("events"), reverse=True)[0]
-        disk_map = {disk.raid_disk: (0, disk) for disk in physical_disks if disk.raid_disk is not None}
+        disk_map = {}
+        for disk in physical_disks:
+            if disk.raid_disk is None:
+                continue
+
+            # A disk that was replaced still claims the slot it had
+            if disk.raid_disk not in disk_map or disk.events > disk_map[disk.raid_disk][1].events:
+                disk_map[disk.raid_disk] = (0, disk)
 
         if reference_disk.level == Level.LINEAR:
             size = sum(disk.size for _, disk in disk_map.values())
-- 
2.43.0


From b4a04e34db3f23d7c1afc65a3dfa8f4c724e7660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:19:56 +0000
Subject: [PATCH 41/43] fix: md: do not read from mirrors that fell behind

A RAID1 volume was read from its first disk, even if that had dropped out of the
set and holds outdated data. As in the kernel, update counts may differ by one.
---
 dissect/volume/md/md.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 7a78eaf..f13bc37 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -60,6 +60,11 @@ class MDVirtualDisk(VirtualDisk):
             if disk.raid_disk not in disk_map or disk.events > disk_map[disk.raid_disk][1].events:
                 disk_map[disk.raid_disk] = (0, disk)
 
+        if reference_disk.level == Level.RAID1 and disk_map:
+            # A mirror that fell behind holds outdated data
+            events = max(disk.events for _, disk in disk_map.values())
+            disk_map = {idx: entry for idx, entry in disk_map.items() if entry[1].events + 1 >= events}
+
         if reference_disk.level == Level.LINEAR:
             size = sum(disk.size for _, disk in disk_map.values())
         elif reference_disk.level == Level.RAID0:
-- 
2.43.0


From 3fa11c3b3e37e0c8ed79da0abd688897076089c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:22:48 +0000
Subject: [PATCH 42/43] fix: use the most recent DDF configuration record of a
 virtual disk

The record of the disk that was given last was used, also if that disk
was replaced earlier and still has the layout of its time.
---
 dissect/volume/ddf/ddf.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index eba63d5..3225380 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -51,10 +51,11 @@ class DDFConfiguration(Configuration):
         for pd in physical_disks:
             pd_map[pd.reference] = pd
             vde_map.update({vde.guid: vde for vde in pd.virtual_disk_records})
-            vdcr_map.update({vdcr.guid: vdcr for vdcr in pd.virtual_disk_configuration_records})
-            vdcr_uniq.update(
-                {(vdcr.guid, vdcr.secondary_element_seq): vdcr for vdcr in pd.virtual_disk_configuration_records}
-            )
+            for vdcr in pd.virtual_disk_configuration_records:
+                # A disk that was replaced still has the records of its time
+                for records, key in ((vdcr_map, vdcr.guid), (vdcr_uniq, (vdcr.guid, vdcr.secondary_element_seq))):
+                    if key not in records or vdcr.sequence_number >= records[key].sequence_number:
+                        records[key] = vdcr
 
         vd_map: dict = {}
         for vdcr in vdcr_uniq.values():
-- 
2.43.0


From b0ee2ff0d6ed5cbeefd441dcbe2d5bb8d3d18c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:22:52 +0000
Subject: [PATCH 43/43] fix: comparing VSS block descriptors raises TypeError

The arguments of isinstance were swapped.
---
 dissect/volume/vss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index b7a3400..9b836c7 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -630,7 +630,7 @@ class BlockDescriptor:
         self.is_forwarder = bool(self.flags & BLOCK_FLAG.IS_FORWARDER)
 
     def __eq__(self, other: object) -> bool:
-        if not isinstance(BlockDescriptor, other):
+        if not isinstance(other, BlockDescriptor):
             return False
 
         return (
-- 
2.43.0

