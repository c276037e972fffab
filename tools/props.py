"""The properties, in the order of properties.jsonl."""

SOUND = ("Bounded: every path of the real code is explored with symbolic inputs and each assertion is decided by Z3 for all "
         "values in the stated bounds; trusts Z3, the symbolic model of Python integers/bytes/files (validated each run by "
         "replaying solver models on the unmodified code) and the transparency of dissect.util's read buffer, which "
         "designated jobs execute as written.")
DATA = ("The repository's array tests read a few fixed offsets of a few sample images (which are not even present here); ")

NOT_APPLICABLE = {}

PROPS = [
    dict(
        id="P01", title="Linear RAID volume is the exact concatenation of its members",
        statement="Opening a linear (concatenated) RAID volume yields a stream whose size is the total of what its members "
                  "contribute, and every byte of it is the byte at the corresponding place of the corresponding member, "
                  "members taken in index order. This holds for any member sizes, any data start on each member and any "
                  "position and length of the read, including reads that cross members or the end of the volume.",
        over=["inputs", "configurations"],
        text="all member sizes and data starts, all read positions and lengths, any order in which members are listed",
        tests=DATA + "none crosses a member boundary or has members with a data start.",
        files=["dissect/volume/raid/stream.py", "dissect/volume/raid/raid.py"],
        mechanism=[("LinearStream", "dissect/volume/raid/stream.py"), ("VirtualDisk.open", "dissect/volume/raid/raid.py")],
        observe=["VirtualDisk(level=-1).open().read"], level_note=SOUND,
    ),
    dict(
        id="P02", title="RAID0 volume interleaves its members stripe by stripe, zone by zone",
        statement="Reading a striped volume returns, for every position, the byte of the member and member offset the Linux MD "
                  "striping rule prescribes. Members of unequal size form successive zones striped over the members still "
                  "having room, under both the original and the alternate multi-zone layout.",
        over=["inputs", "configurations"],
        text="all member sizes and size orders, data starts, read positions and lengths, both layouts",
        tests=DATA + "only the first zone's geometry is compared, never bytes of a later zone.",
        files=["dissect/volume/raid/stream.py", "dissect/volume/raid/raid.py"],
        mechanism=[("RAID0Stream (zones, _find_zone, _read)", "dissect/volume/raid/stream.py")],
        observe=["VirtualDisk(level=0).open().read"], level_note=SOUND,
    ),
    dict(
        id="P03", title="RAID1 volume returns the mirrored data of an available member",
        statement="Reading a mirrored volume returns, for every position inside it, the byte some available member holds at "
                  "that position of its data area, honouring each member's data start. It works with any non-empty subset of "
                  "the members present.",
        over=["inputs", "configurations"],
        text="all member positions, data starts, sizes, present subsets, read positions and lengths",
        tests=DATA + "no sample has an absent first member or a data start inside the member.",
        files=["dissect/volume/raid/raid.py"],
        mechanism=[("VirtualDisk.open", "dissect/volume/raid/raid.py")],
        observe=["VirtualDisk(level=1).open().read"], level_note=SOUND,
    ),
    dict(
        id="P04", title="RAID4/RAID5 volumes decode every parity layout exactly",
        statement="Reading a complete RAID4 or RAID5 volume returns, for every position, the data byte at the member and offset "
                  "prescribed by the declared parity layout (left/right, symmetric/asymmetric, fixed parity), never a parity "
                  "byte and never a byte of another row.",
        over=["inputs", "configurations"],
        text="all layouts, member positions, volume sizes, read positions and lengths",
        tests=DATA + "one layout at a handful of offsets.",
        files=["dissect/volume/raid/stream.py"],
        mechanism=[("RAID456Stream._get_stripe_read_info", "dissect/volume/raid/stream.py"),
                   ("RAID456Stream._read", "dissect/volume/raid/stream.py")],
        observe=["VirtualDisk(level=4|5).open().read"], level_note=SOUND,
    ),
    dict(
        id="P05", title="RAID6 volumes decode every P/Q layout exactly",
        statement="Reading a complete RAID6 volume returns, for every position, the data byte at the member and offset "
                  "prescribed by the declared layout, for the Linux MD rotations, the DDF rotations and the "
                  "RAID5-plus-Q layouts, never a P or Q byte.",
        over=["inputs", "configurations"],
        text="all fourteen layouts, member positions, volume sizes, read positions and lengths",
        tests=DATA + "one layout at a handful of offsets; ten layouts are never executed.",
        files=["dissect/volume/raid/stream.py"],
        mechanism=[("RAID456Stream._get_stripe_read_info", "dissect/volume/raid/stream.py")],
        observe=["VirtualDisk(level=6).open().read"], level_note=SOUND,
    ),
    dict(
        id="P06", title="RAID10 volumes decode near, far and offset layouts exactly",
        statement="Reading a complete RAID10 volume returns, for every position, the byte at a member and offset that the "
                  "declared near/far/offset layout assigns to a copy of that position, for any number of near and far copies "
                  "and any member count, including counts the copies do not divide.",
        over=["inputs", "configurations"],
        text="all layouts in the stated set, member positions, volume sizes, read positions and lengths",
        tests=DATA + "odd member counts and more than two copies are never read.",
        files=["dissect/volume/raid/stream.py"],
        mechanism=[("RAID10Stream", "dissect/volume/raid/stream.py")],
        observe=["VirtualDisk(level=10).open().read"], level_note=SOUND,
    ),
    dict(
        id="P07", title="An array with absent members fails or reads right, never wrong bytes",
        statement="Opening or reading an array some of whose members are absent either raises an error or returns exactly the "
                  "bytes of the volume. Sets without redundancy, and parity sets lacking more members than their parity "
                  "covers, never open.",
        over=["fault_sequences", "inputs", "configurations"],
        text="all absent subsets in the stated set, all read positions and lengths",
        tests="No test removes a member from an array.",
        files=["dissect/volume/raid/stream.py", "dissect/volume/raid/raid.py"],
        mechanism=[("member count checks of the array streams", "dissect/volume/raid/stream.py")],
        observe=["VirtualDisk.open().read with missing disk_map entries"], level_note=SOUND,
    ),
    dict(
        id="P08", title="MD superblocks are found and decoded wherever the format puts them",
        statement="For every device size, a Linux MD member with a 0.90, 1.0, 1.1 or 1.2 superblock at its prescribed place is "
                  "recognised, and level, layout, chunk size, identity, name, update count, times, data area and slot are reported as "
                  "recorded. Spare, faulty and journal devices get no slot, and a device without a superblock at a prescribed place is "
                  "rejected, as is a superblock of another major version.",
        over=["inputs", "configurations"],
        text="all device sizes, all superblock field values, all metadata versions, all wrong magics and places",
        tests="The sample images have one device size per metadata version and never a spare, a journal or an odd size.",
        files=["dissect/volume/md/md.py", "dissect/volume/md/c_md.py"],
        mechanism=[("find_super_block", "dissect/volume/md/md.py"), ("MDPhysicalDisk", "dissect/volume/md/md.py"),
                   ("mdp_super_t, mdp_superblock_1", "dissect/volume/md/c_md.py")],
        observe=["MDPhysicalDisk(fh) attributes and exceptions"], level_note=SOUND,
    ),
    dict(
        id="P09", title="MD sets assemble to the array their superblocks describe",
        statement="Given the devices of one or more MD sets in any order, each set becomes exactly one array with the geometry of its "
                  "most recently updated member, and devices of different sets are never mixed. Every byte read from the array comes from "
                  "the device and offset that geometry prescribes; of two devices that claim one slot only the most recently updated "
                  "one is used, and a mirror is never read from a member whose update count fell behind by more than one. The reported size of linear, striped and (1.x) mirrored arrays is what "
                  "the members provide.",
        over=["inputs", "configurations", "histories"],
        text="all orders of the devices, data offsets, sizes, update counts, identities, spare devices, read positions",
        tests=DATA + "each hands the devices over in one order, without spares and without differing superblocks.",
        files=["dissect/volume/md/md.py", "dissect/volume/raid/raid.py", "dissect/volume/raid/stream.py"],
        mechanism=[("MD, MDConfiguration, MDVirtualDisk", "dissect/volume/md/md.py")],
        observe=["MD(devices).configurations[].virtual_disks[].open().read"], level_note=SOUND,
    ),
    dict(
        id="P10", title="DDF disks are decoded and assembled as their configuration records say",
        statement="For a group of SNIA DDF disks handed over in any order, every configured virtual disk is found, whatever unused slots "
                  "the tables contain, with its recorded identity, name, size, level, layout and strip size. Every byte read from it "
                  "comes from the disk, starting block and offset the most recent record prescribes, disks of different groups are never mixed, and a "
                  "damaged section or a layout that cannot be read is rejected.",
        over=["inputs", "configurations"],
        text="all header and section positions, references, capacities, starting blocks, table occupancies, level qualifiers, disk orders, "
             "read positions",
        tests="The sample sets hold one virtual disk each, starting at block 0, in the first slot of every table.",
        files=["dissect/volume/ddf/ddf.py", "dissect/volume/ddf/c_ddf.py", "dissect/volume/raid/raid.py"],
        mechanism=[("DDFPhysicalDisk", "dissect/volume/ddf/ddf.py"), ("DDFConfiguration", "dissect/volume/ddf/ddf.py"),
                   ("_convert_raid_layout", "dissect/volume/ddf/ddf.py")],
        observe=["DDF(disks).configurations[].virtual_disks[]", "virtual disk open().read"], level_note=SOUND,
    ),
    dict(
        id="P11", title="Vinum configuration text is understood as the Vinum language defines it",
        statement="Every line of a Vinum configuration is split into tokens and keywords as the Vinum configuration language defines, in "
                  "whatever order the keywords come, and the parsed volumes, plexes and subdisks carry exactly the written names, "
                  "references, states, organisations, lengths and offsets, sizes scaled by their unit. Text that cannot be understood "
                  "never yields a made-up object, nor disturbs the lines before it.",
        over=["inputs"],
        text="all byte values at free places of the text, all orders of the keywords, all numbers and units",
        tests="The unit tests parse some dozens of hand-written lines; they do not quantify over bytes, numbers or orders.",
        files=["dissect/volume/vinum/config.py"],
        mechanism=[("parse_vinum_config", "dissect/volume/vinum/config.py"), ("_parse_size", "dissect/volume/vinum/config.py"),
                   ("tokenize", "dissect/volume/vinum/config.py")],
        observe=["parse_vinum_config(time, text)"], level_note=SOUND,
    ),
    dict(
        id="P12", title="Vinum volumes are assembled from the newest configuration and read from the right subdisks",
        statement="For a set of Vinum drives in any order, each object is taken from the most recently updated configuration of the "
                  "drives in use, unusable plexes and subdisks are left out, and every byte read from a volume is the byte of the "
                  "subdisk, drive and drive offset the organisation prescribes. A mirrored volume stays readable while one complete "
                  "plex is left.",
        over=["inputs", "configurations"],
        text="all subdisk lengths and offsets, drive orders, update times, states, read positions",
        tests="The sample drives hold one subdisk each, at the very start of the data area, with identical configurations.",
        files=["dissect/volume/vinum/vinum.py", "dissect/volume/raid/raid.py"],
        mechanism=[("VinumConfiguration", "dissect/volume/vinum/vinum.py"), ("VinumPlexDisk", "dissect/volume/vinum/vinum.py"),
                   ("VinumPhysicalDisk", "dissect/volume/vinum/vinum.py")],
        observe=["Vinum(drives).configurations[0].virtual_disks[]", "virtual disk open().read"], level_note=SOUND,
    ),
    dict(
        id="P13", title="MBR partitions, including chained logical ones, have the right extent",
        statement="Opening a disk with a Master Boot Record lists exactly the used entries of the table and of every chained extended boot "
                  "record, in table order, each with its type, flags, number, byte offset and byte size relative to where the table was "
                  "found. Chain links count from the extended partition, logical partitions from their own boot record. Boot sectors of "
                  "file systems are not taken for partition tables, and a partition's stream is its bytes of the disk.",
        over=["inputs", "configurations"],
        text="all entry values, chain positions and lengths, table positions, sector sizes, boot code fields, read positions",
        tests="One sample disk with two primary partitions; no extended partition, no other sector size, no position but 0.",
        files=["dissect/volume/disk/schemes/mbr.py", "dissect/volume/disk/partition.py"],
        mechanism=[("MBR._partitions", "dissect/volume/disk/schemes/mbr.py"), ("Partition.open", "dissect/volume/disk/partition.py")],
        observe=["MBR(fh).partitions", "Partition.open().read"], level_note=SOUND,
    ),
    dict(
        id="P14", title="GPT partitions are listed with the right extent, identity and name",
        statement="Opening a disk with a GUID Partition Table lists exactly the used entries, numbered by their slot, with the type and "
                  "unique GUID, flags, name up to its terminator, and the extent from the first to the last LBA of the entry in sectors "
                  "of the given size. Entries are found wherever the header says and whatever entry size it declares; on hybrid disks "
                  "the plain MBR entries are listed as well, in table order. A wrong signature is rejected.",
        over=["inputs", "configurations"],
        text="all LBAs, GUIDs, flags, names, entry sizes and counts, table positions, arrangements of protective entries",
        tests="A few sample disks with the array at LBA 2 and 128-byte entries.",
        files=["dissect/volume/disk/schemes/gpt.py", "dissect/volume/disk/schemes/mbr.py", "dissect/volume/disk/partition.py"],
        mechanism=[("GPT._partitions", "dissect/volume/disk/schemes/gpt.py")],
        observe=["GPT(fh).partitions", "Partition.open().read"], level_note=SOUND,
    ),
    dict(
        id="P15", title="Apple partition maps are listed completely, block by block",
        statement="Opening a disk with an Apple partition map lists every entry of the map in order, with the recorded name, type and extent "
                  "in blocks, wherever the driver descriptor places the map and whatever the block size. Anything without the map "
                  "signature is rejected.",
        over=["inputs", "configurations"],
        text="all starts, sizes, names and types, map lengths, block sizes, signatures, read positions",
        tests="One sample map of 512-byte blocks.",
        files=["dissect/volume/disk/schemes/apm.py", "dissect/volume/disk/partition.py"],
        mechanism=[("APM._partitions", "dissect/volume/disk/schemes/apm.py")],
        observe=["APM(fh).partitions", "Partition.open().read"], level_note=SOUND,
    ),
    dict(
        id="P16", title="BSD disklabels are decoded with slice-relative extents",
        statement="Opening a 32-bit or 64-bit BSD disklabel lists exactly the slots in use, leaving out the slot standing for the whole "
                  "disk, numbered by slot, with file system type and extent relative to the start of the slice. The 32-bit label's "
                  "offsets are made relative by its whole-disk slot; 64-bit offsets are bytes of the slice already. A label with a wrong "
                  "magic, in either of its places, is rejected.",
        over=["inputs", "configurations"],
        text="all slot contents and slot counts, whole-disk offsets, sector sizes, magics, read positions",
        tests="Two sample labels at one sector size; no slot before the whole-disk offset, none with a damaged second magic.",
        files=["dissect/volume/disk/schemes/bsd.py", "dissect/volume/disk/partition.py"],
        mechanism=[("BSD._partitions", "dissect/volume/disk/schemes/bsd.py")],
        observe=["BSD(fh).partitions", "Partition.open().read"], level_note=SOUND,
    ),
    dict(
        id="P17", title="A disk's scheme is detected and nested BSD slices are expanded in place",
        statement="Opening a disk finds the scheme it carries (GPT before MBR, then APM, then a bare BSD label) and refuses a source with "
                  "none, or a GPT looked at with the wrong sector size. The partitions of a BSD slice take the place of the slice in the "
                  "list and read the right bytes of the disk; a slice without a label stays in the list. The serial number of an MBR disk "
                  "is the recorded one.",
        over=["inputs", "configurations"],
        text="all entry values, slice positions and types, inner labels, sector sizes, read positions",
        tests="One sample per scheme, one nested label behind one partition.",
        files=["dissect/volume/disk/disk.py", "dissect/volume/disk/schemes/bsd.py", "dissect/volume/disk/schemes/mbr.py",
               "dissect/volume/disk/schemes/gpt.py", "dissect/volume/disk/schemes/apm.py"],
        mechanism=[("Disk.__init__", "dissect/volume/disk/disk.py"), ("BSD", "dissect/volume/disk/schemes/bsd.py")],
        observe=["Disk(fh).partitions", "Disk.scheme", "Disk.serial", "Partition.open().read"], level_note=SOUND,
    ),
    dict(
        id="P18", title="Thin pool B-tree lookups find exactly the stored entries",
        statement="Looking up a key in a device-mapper B-tree returns the value stored with that key, and nothing when the key is not "
                  "stored, whatever the number of entries, the depth of the tree, the room in its nodes and the size of its values. A "
                  "list of keys walks the nested trees. Lookups do not depend on earlier lookups or on the position of the source.",
        over=["inputs", "configurations"],
        text="all keys and values, tree shapes, node positions, nested trees, successive lookups",
        tests="One sample pool whose trees are a single leaf each.",
        files=["dissect/volume/dm/btree.py"],
        mechanism=[("BTree.lookup", "dissect/volume/dm/btree.py")],
        observe=["BTree.lookup"], level_note=SOUND,
    ),
    dict(
        id="P19", title="Thin devices read their mapped blocks and zeros elsewhere",
        statement="Reading a thin device gives, for every byte, the byte at the same offset of the data block its block is mapped to for "
                  "that device, and zero where no block is mapped, across any mix of both, up to the size of the device. Opening an "
                  "unknown device id or a pool without the magic is refused.",
        over=["inputs", "configurations"],
        text="all mappings, device ids, block sizes, read positions and lengths, device sizes",
        tests="One sample pool read from the start; reads never cross from mapped to unmapped blocks.",
        files=["dissect/volume/dm/thin.py", "dissect/volume/dm/btree.py"],
        mechanism=[("ThinDevice._read", "dissect/volume/dm/thin.py"), ("ThinPool.open", "dissect/volume/dm/thin.py")],
        observe=["ThinPool.open", "ThinDevice.read"], level_note=SOUND,
    ),
    dict(
        id="P20", title="LVM physical volumes: label, metadata areas and data area",
        statement="A physical volume is recognised by a label in any of its first four sectors, and refused otherwise or when it does not have "
                  "exactly one data area. Its id and size are those of the header; its metadata is the text of the first metadata area that "
                  "is in use (areas without text or marked to be ignored are passed over, text that reaches the end of its circular area "
                  "continues behind the header of the area), and None when there is none; reading it gives the bytes of the data area.",
        over=["inputs", "configurations"],
        text="all label sectors, header offsets, places and sizes of the areas, ids, text offsets and wrap points, read positions and lengths",
        tests="The sample volumes have the label in sector 1 and one metadata area whose text does not wrap.",
        files=["dissect/volume/lvm/physical.py", "dissect/volume/lvm/c_lvm2.py", "dissect/volume/lvm/metadata.py"],
        mechanism=[("LVM2Device", "dissect/volume/lvm/physical.py")],
        observe=["LVM2Device.id", "LVM2Device.size", "LVM2Device.metadata", "LVM2Device.open", "LVM2Device.read_sectors"], level_note=SOUND,
    ),
    dict(
        id="P21", title="LVM metadata text becomes the volume group it describes",
        statement="Opening physical volumes gives the volume group of the newest metadata found on any of them (highest seqno), and fails with "
                  "LVM2Error if none has metadata. Every number, text, array and section of the metadata shows up with its value in the volume "
                  "group, physical volumes, logical volumes, segments of every kind and historical volumes, whatever printable characters the texts contain and "
                  "whether arrays span lines or lines carry comments; absent optional fields (such as those that LVM leaves out of RAID and VDO segments) are None; times are datetimes. Physical volumes are "
                  "attached to the device with their id, those without a device cannot be opened.",
        over=["inputs", "configurations"],
        text="all numeric values, all printable characters in texts, all seqnos, presence of metadata per volume, order of the volumes",
        tests="Two fixed metadata texts.",
        files=["dissect/volume/lvm/lvm2.py", "dissect/volume/lvm/metadata.py", "dissect/volume/lvm/physical.py"],
        mechanism=[("parse_metadata", "dissect/volume/lvm/physical.py"), ("MetaBase.from_dict", "dissect/volume/lvm/metadata.py"),
                   ("LVM2", "dissect/volume/lvm/lvm2.py")],
        observe=["LVM2.volume_group", "VolumeGroup", "PhysicalVolume", "LogicalVolume", "Segment"], level_note=SOUND,
    ),
    dict(
        id="P22", title="LVM logical volumes read from the extents of their segments",
        statement="A logical volume is as large as its segments together, and every byte read from it comes from the place its segment says: "
                  "at the extent offset of the physical volume (behind its data area offset) for a linear segment, interleaved in chunks of the "
                  "stripe size for a striped segment, at the extent offset of an available image for a mirror, and through the pool's metadata "
                  "for a thin volume; this regardless of the order of the segments in the metadata. A volume with an area on a missing physical "
                  "volume is refused with an error, while the others still read; so is one with a segment of a kind that is not implemented.",
        over=["inputs", "configurations"],
        text="all extent offsets, extent counts, data area offsets, read positions and lengths, missing volumes, thin mappings",
        tests="The tests check the run lists of single-stripe segments only; no data of a striped, mirrored or moved segment is compared.",
        files=["dissect/volume/lvm/metadata.py", "dissect/volume/lvm/physical.py", "dissect/volume/lvm/lvm2.py", "dissect/volume/dm/thin.py"],
        mechanism=[("LogicalVolume.open", "dissect/volume/lvm/metadata.py"), ("StripedSegment.open", "dissect/volume/lvm/metadata.py"),
                   ("MirrorSegment.open", "dissect/volume/lvm/metadata.py"), ("ThinSegment.open", "dissect/volume/lvm/metadata.py")],
        observe=["LogicalVolume.open", "LogicalVolume size and bytes read"], level_note=SOUND,
    ),
    dict(
        id="P23", title="Volume shadow copies read as the volume was",
        statement="The stores of a volume are listed from old to new with their ids, times and sizes. Reading a store gives, for every byte, the "
                  "sector of the overlay of its own descriptors if that has the sector, else the stored block, or the block it is forwarded to, "
                  "of its own descriptors, else what the next newer store has for the block, and for the newest store the block of the volume - "
                  "zeros if neither of its bitmaps has the block. Descriptors marked unused have no effect. A volume without header, catalog or "
                  "identifiers is refused with an Error, as is a store when its header, its block list or a bitmap that a read needs is not one. "
                  "Block descriptors are equal exactly if they record the same.",
        over=["inputs", "configurations"],
        text="all descriptors, bitmaps, places of the lists, numbers and order of stores, read positions and lengths, sizes",
        tests="There is no test for shadow copies.",
        files=["dissect/volume/vss.py"],
        mechanism=[("Store.read_block", "dissect/volume/vss.py"), ("BlockMap.add", "dissect/volume/vss.py"), ("Catalog", "dissect/volume/vss.py"),
                   ("read_block", "dissect/volume/vss.py")],
        observe=["VSS", "Catalog.stores", "Store.open", "StoreStream.read"], level_note=SOUND,
    ),
    dict(
        id="P24", title="Damaged metadata ends in an answer or an error, never in an endless loop",
        statement="Whatever the links and sizes in the metadata are - B-tree nodes, shadow copy lists and extended partition tables that lead "
                  "back to themselves or each other, logical volumes built from themselves, zero chunk, stripe, extent or block sizes, any text "
                  "in a Vinum or LVM configuration, sources that end early - opening the volume and reading from it come to an end, with a result or an exception. "
                  "Primary partitions are listed whatever the extended partition tables lead to.",
        over=["inputs", "fault_sequences"],
        text="all links among a few metadata blocks, all values of the fields next to them, all texts of a few characters, zero sizes",
        tests="All samples are intact.",
        files=["dissect/volume/dm/btree.py", "dissect/volume/vss.py", "dissect/volume/disk/schemes/mbr.py", "dissect/volume/lvm/metadata.py",
               "dissect/volume/lvm/physical.py", "dissect/volume/raid/stream.py", "dissect/volume/vinum/config.py", "dissect/volume/dm/thin.py"],
        mechanism=[("BTree.lookup", "dissect/volume/dm/btree.py"), ("read_block", "dissect/volume/vss.py"),
                   ("MBR._partitions", "dissect/volume/disk/schemes/mbr.py"), ("MirrorSegment.open", "dissect/volume/lvm/metadata.py")],
        observe=["BTree.lookup", "VSS", "StoreStream.read", "Disk.partitions", "LogicalVolume.open", "VirtualDisk.open"], level_note=SOUND,
    ),
    dict(
        id="P25", title="What was read before, and through which stream, does not matter",
        statement="Reading a volume in pieces gives the same bytes as reading it at once: a read continues where the previous one ended, seeks "
                  "relative to the position or the end land where they should, tell() says where, reading without a length gives all that is "
                  "left. Other streams on the same volume, on other volumes of the same disks, pool, group or shadow copy set, or on a "
                  "different pool with the same device number neither disturb a stream nor show up in it, and neither does the position "
                  "the underlying files were left at. A lookup in a B-tree does not depend on earlier lookups.",
        over=["histories", "inputs"],
        text="all positions, lengths and relative seeks of the operations, all geometries and mappings within the bounds, all positions of the "
             "underlying files in between",
        tests="The tests open a fresh stream and read a few blocks in order.",
        files=["dissect/volume/raid/stream.py", "dissect/volume/raid/raid.py", "dissect/volume/disk/partition.py", "dissect/volume/dm/thin.py",
               "dissect/volume/dm/btree.py", "dissect/volume/lvm/metadata.py", "dissect/volume/lvm/physical.py", "dissect/volume/vss.py"],
        mechanism=[("RAID0Stream", "dissect/volume/raid/stream.py"), ("RAID456Stream", "dissect/volume/raid/stream.py"),
                   ("RAID10Stream", "dissect/volume/raid/stream.py"), ("ThinDevice", "dissect/volume/dm/thin.py"),
                   ("BTree", "dissect/volume/dm/btree.py"), ("StoreStream", "dissect/volume/vss.py")],
        observe=["seek, read and tell of every stream the library opens", "BTree.lookup"], level_note=SOUND,
    ),
]
