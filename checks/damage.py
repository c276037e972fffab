"""Damaged metadata: whatever the links and sizes are, opening and reading come to an end."""

from __future__ import annotations

from checks import disk, dm, lvm, vss
from checks.raid import members, virtual

SECTOR = 512
TOP = (1 << 64) - 1


def outcome(w, err, tag):
    w.reach(f"{tag}: {'refused' if err is not None else 'answered'}")


def one_of(w, name, values):
    """A number that is one of ``values``."""
    v = w.int(name, 0, TOP)
    w.assume(w.or_(*(v == x for x in values)))
    return v


# -- links ---------------------------------------------------------------------------------


def h_tree(w, n, entries, keys):
    """Nodes of a B-tree, each of any kind, that lead to each other in any way."""
    from dissect.volume.dm.btree import BTree

    fh = w.file("meta", size=1 << 60)
    blocks = []
    for i in range(n):
        b = w.int(f"block{i}", 1, 1 << 40)
        for o in blocks:
            w.assume(b != o)
        blocks.append(b)
    for i, b in enumerate(blocks):
        r = w.region(fh, b * 4096, 4096, f"node{i}")
        room = 4
        r.put(0, bytes(4096))
        r.uint(4, 4, w.int(f"kind{i}", 0, 3))
        r.uint(8, 8, b)
        r.uint(16, 4, w.int(f"count{i}", 0, entries))
        r.uint(20, 4, room)
        r.uint(24, 4, 8)
        for j in range(entries):
            r.uint(32 + 8 * j, 8, w.int(f"key{i}.{j}", 0, TOP))
            r.uint(32 + 8 * room + 8 * j, 8, one_of(w, f"link{i}.{j}", blocks))
    bt, err = w.call(BTree, fh, blocks[0], 8)
    if err is None:
        key = w.int("key", 0, TOP)
        _, err = w.call(bt.lookup, key if keys == 1 else [key] * keys)
    outcome(w, err, "tree")


def h_chain(w, n, what):
    """Blocks of a shadow copy list that lead to each other in any way."""
    from dissect.volume.vss import VSS

    d = vss.Disk(w)
    places = [d.place() for _ in range(n)]

    def loose(kind, tag, fill):
        for i, at in enumerate(places):
            r = d.block(at, kind, 0, f"{tag}{i}")
            r.uint(40, 8, one_of(w, f"next{i}", [0, *places]))
            fill(r, i)
        return places[0]

    def nothing(r, i):
        pass

    def descriptor(r, i):
        r.uint(128, 8, vss.BLOCK * (i + 1))
        r.uint(136, 8, vss.BLOCK)
        r.uint(144, 8, vss.BLOCK)

    lists = vss.store(w, d, 0, [(vss.BLOCK, vss.BLOCK, vss.BLOCK, 0, [])])
    if what in ("blocks", "bitmap", "previous", "ranges"):
        kind, fill = {"blocks": (3, descriptor), "bitmap": (6, nothing), "previous": (6, nothing), "ranges": (5, nothing)}[what]
        lists[what] = loose(kind, "x", fill)

    def catalog(r, i=0):
        if i == 0:
            vss.entries(r, 128, vss.ident(0), 1 << 30, 1, lists)

    d.header(loose(2, "cat", catalog) if what == "catalog" else d.chain(2, "cat", [catalog]))
    v, err = w.call(VSS, d.fh)
    if err is None and what == "ranges":
        _, err = w.call(lambda: v.catalog.stores[0].range_list)
    elif err is None and what != "catalog":
        fh = v.catalog.stores[0].open()
        w.call(fh.seek, 40 * vss.BLOCK)
        _, err = w.call(fh.read, 512)
    outcome(w, err, what)


def h_extended(w, n, kinds):
    """Extended partition tables that lead to each other in any way."""
    from dissect.volume.disk import Disk

    fh = w.file("disk", size=disk.SIZE)
    first = w.int("first", 1, 1 << 20)
    at = [0]
    for i in range(1, n):
        at.append(w.int(f"step{i}", 0, 1 << 20))
        for o in at[1:-1]:
            w.assume(at[-1] != o)
    disk.boot_sector(w, fh, 0, "mbr", {0: (0, 0x83, 5, 7), 1: (0, 0x05, first, 100)})
    at[0] = w.int("step0", 0, 0)
    for i, a in enumerate(at):
        entries = {j: (0, k, one_of(w, f"to{i}.{j}", at), 9) for j, k in enumerate(kinds) if k}
        disk.boot_sector(w, fh, (first + a) * SECTOR, f"ebr{i}", entries)
    fh.seek(0)
    d, err = w.call(Disk, fh)
    if err is None:
        w.check(w.or_(*(w.and_(p.offset == 5 * SECTOR, p.size == 7 * SECTOR) for p in d.partitions)),
                "the primary partition is listed whatever the extended ones lead to")
    outcome(w, err, "extended")


def h_volumes(w, kinds):
    """Logical volumes built from each other in any way."""
    from dissect.volume.lvm import LVM2

    names = [f"lv{i}" for i in range(len(kinds))]
    lvs = {}
    for i, kind in enumerate(kinds):
        to = w.pick(f"to{i}", names)
        e = {"start_extent": 0, "extent_count": 4, "type": kind}
        if kind == "mirror":
            e.update(mirror_count=2, region_size=1024, mirrors=[to, 0, w.pick(f"also{i}", names), 0])
        elif kind == "thin":
            e.update(thin_pool=to, transaction_id=1, device_id=1)
        else:
            e.update(metadata=to, pool=w.pick(f"also{i}", names), transaction_id=1, chunk_size=128, discards="passdown", zero_new_blocks=1)
        lvs[names[i]] = {"id": names[i], "status": ["READ"], "flags": [], "segment_count": 1, "segment1": e}
    vg = {"id": "x", "seqno": 3, "status": ["READ"], "flags": [], "extent_size": 8192, "max_lv": 0, "max_pv": 0,
          "physical_volumes": {"pv0": {"id": lvm.dashed(lvm.IDS[0]), "status": [], "flags": [], "pe_start": 2048, "pe_count": 1}},
          "logical_volumes": lvs}
    fh, _ = lvm.pv_file(w, 0, lvm.root_of(vg, 1))
    v, err = w.call(LVM2, fh)
    if err is None:
        s, err = w.call(v.vg.logical_volumes["lv0"].open)
    if err is None:
        _, err = w.call(s.read, 512)
    outcome(w, err, "volumes")


# -- sizes ---------------------------------------------------------------------------------


def h_array(w, level, n):
    """Arrays with any small chunk size, layout and number of members, zero included."""
    disk_map, _ = members(w, n)
    stripe = w.pick("stripe", [0, 512])
    layout = w.pick("layout", [0, 1, 2, 0x101, 0x102, 0x10000, 0x10102, 0x20201] if level == 10 else [0, 5, 7, 18])
    count = w.pick("count", [0, 1, n, n + 1])
    vd, err = w.call(virtual, level, layout, stripe, count, disk_map, w.pick("size", [0, 1, 1 << 20]))
    if err is None:
        fh, err = w.call(vd.open)
    if err is None:
        w.call(fh.seek, w.pick("pos", [0, 5000]))
        _, err = w.call(fh.read, 1500)
    outcome(w, err, "array")


def h_short(w, kind):
    """Sources that end before the metadata says so."""
    from dissect.volume.raid.raid import PhysicalDisk

    pos, length = w.int("pos", 0, 1 << 20), w.int("len", 1, 9000)
    end = w.int("end", 0, 1 << 20)
    if kind in ("linear", "raid0", "raid1", "raid4", "raid5", "raid6", "raid10"):
        level, layout, n = {"linear": (-1, 0, 2), "raid0": (0, 0, 2), "raid1": (1, 0, 2), "raid4": (4, 0, 3), "raid5": (5, 2, 3),
                            "raid6": (6, 2, 4), "raid10": (10, 0x102, 2)}[kind]
        files = [w.file(f"d{i}", size=end if i == 0 else None) for i in range(n)]
        disk_map = {i: (0, PhysicalDisk(f, 512, 1 << 21)) for i, f in enumerate(files)}
        fh, err = w.call(virtual(level, layout, 4096, n, disk_map, 1 << 21).open)
    elif kind == "partition":
        from dissect.volume.disk import Disk

        f = w.file("disk", size=512 + end)
        disk.boot_sector(w, f, 0, "mbr", {0: (0, 0x83, 1, 4096)})
        f.seek(0)
        fh, err = w.call(lambda: Disk(f).partitions[0].open())
    elif kind == "thin":
        from dissect.volume.dm.thin import ThinPool

        meta, _, ids, _ = dm.pool(w, 65536, [1])
        meta.seek(0)
        fh, err = w.call(lambda: ThinPool(meta, w.file("short", size=end)).open(ids[0], 1 << 21))
    else:
        from dissect.volume.lvm import LVM2

        seg = {"start_extent": 0, "extent_count": 4, "type": "striped", "stripe_count": 2 if kind == "striped" else 1, "stripe_size": 8,
               "stripes": ["pv0", 0, "pv0", 2] if kind == "striped" else ["pv0", 0]}
        vg = {"id": "x", "seqno": 3, "status": ["READ"], "flags": [], "extent_size": 8192, "max_lv": 0, "max_pv": 0,
              "physical_volumes": {"pv0": {"id": lvm.dashed(lvm.IDS[0]), "status": [], "flags": [], "pe_start": 8192, "pe_count": 9}},
              "logical_volumes": {"lv0": {"id": "y", "status": ["READ"], "flags": [], "segment_count": 1, "segment1": seg}}}
        f, _ = lvm.pv_file(w, 0, lvm.root_of(vg, 1), length=(1 << 22) + end)
        fh, err = w.call(lambda: LVM2(f).vg.logical_volumes["lv0"].open())
    if err is None:
        fh.seek(pos)
        _, err = w.call(fh.read, length)
    outcome(w, err, "short")


def h_striped(w):
    """A striped volume with any small stripe size, extent size and number of stripes, zero included."""
    from dissect.volume.lvm import LVM2

    stripes = w.pick("stripes", [0, 1, 2])
    seg = {"start_extent": w.pick("start", [0, 1]), "extent_count": w.pick("extents", [0, 1]), "type": "striped",
           "stripe_count": w.pick("count", [0, 1, 2]), "stripe_size": w.pick("chunk", [0, 1, 8]), "stripes": ["pv0", 0] * stripes}
    vg = {"id": "x", "seqno": 3, "status": ["READ"], "flags": [], "extent_size": w.pick("es", [0, 1, 8192]), "max_lv": 0, "max_pv": 0,
          "physical_volumes": {"pv0": {"id": lvm.dashed(lvm.IDS[0]), "status": [], "flags": [], "pe_start": 2048, "pe_count": 1}},
          "logical_volumes": {"lv0": {"id": "y", "status": ["READ"], "flags": [], "segment_count": 1, "segment1": seg}}}
    fh, _ = lvm.pv_file(w, 0, lvm.root_of(vg, 1))
    v, err = w.call(LVM2, fh)
    if err is None:
        s, err = w.call(v.vg.logical_volumes["lv0"].open)
    if err is None:
        _, err = w.call(s.read, 700)
    outcome(w, err, "striped")


def h_thin(w):
    """A thin pool with any small block sizes, zero included."""
    from dissect.volume.dm.thin import ThinPool

    meta, data, ids, _ = dm.pool(w, 65536, [1], units=w.pick("units", [(0, 8), (1, 8), (128, 0), (128, 8)]))
    meta.seek(0)
    p, err = w.call(ThinPool, meta, data)
    if err is None:
        fh, err = w.call(p.open, ids[0], w.pick("size", [None, 0, 1 << 20]))
    if err is None:
        _, err = w.call(fh.read, 700)
    outcome(w, err, "thin")


# -- text ----------------------------------------------------------------------------------


def h_vinum_text(w, head, n):
    from dissect.volume.vinum.config import parse_vinum_config

    _, err = w.call(parse_vinum_config, w.time(0), head.encode() + w.bytes("text", n))
    outcome(w, err, "text")


def h_lvm_text(w, head, n, tail=""):
    from dissect.volume.lvm.physical import parse_metadata

    raw = w.bytes("text", n)
    for b in raw:
        w.assume(w.or_(*(b == ord(c) for c in "a=[]{}#\" \n")))
    _, err = w.call(lambda: parse_metadata((head.encode() + raw + tail.encode()).decode()))
    outcome(w, err, "text")


def jobs_p24(tier):
    out = []

    def add(fn, name, weight=3, ticks=50000, **cfg):
        out.append({"name": name, "fn": fn, "cfg": cfg, "weight": weight, "max_ticks": ticks})

    add("h_tree", "tree-1", n=1, entries=2, keys=1)
    add("h_tree", "tree-2", 9, n=2, entries=2, keys=1)
    add("h_tree", "tree-3", 9, n=3, entries=1, keys=2)
    for what in ("catalog", "blocks", "bitmap", "previous", "ranges"):
        for n in (1, 2, 3):
            add("h_chain", f"chain-{what}-{n}", 6, ticks=50000 if what in ("catalog", "ranges") else 2000000, n=n, what=what)
    for n, kinds in ((1, [5]), (1, [0x83, 5]), (2, [0x83, 0x0F]), (2, [0x85, 5]), (3, [0x83, 5])):
        add("h_extended", f"extended-{n}-" + "-".join(f"{k:02x}" for k in kinds), 9, n=n, kinds=kinds)
    for kinds in (["mirror"], ["mirror", "mirror"], ["thin", "thin-pool"], ["thin", "thin-pool", "mirror"]):
        add("h_volumes", "volumes-" + "-".join(kinds), 6, kinds=kinds)
    for level in (-1, 0, 1, 4, 5, 6, 10):
        for n in (1, 2):
            add("h_array", f"array-{level}-{n}", 6, level=level, n=n)
    add("h_striped", "striped", 6)
    for kind in ("linear", "raid0", "raid1", "raid4", "raid5", "raid6", "raid10", "partition", "thin", "lv", "striped"):
        add("h_short", f"short-{kind}", 6, kind=kind)
    add("h_thin", "thin", 6)
    for i, head in enumerate(("", "volume ", "sd name a drive b length ", "plex name a org ")):
        add("h_vinum_text", f"vinum-{i}", 6, head=head, n=3)
    for i, (head, tail) in enumerate((("", ""), ("a = [", ""), ("a {\n", "}\n"), ("a = [\n", '"x"\n]\n'))):
        add("h_lvm_text", f"text-{i}", 6, head=head, n=3, tail=tail)
    if tier == "thorough":
        add("h_tree", "tree-3-2", 9, n=3, entries=2, keys=1)
        add("h_tree", "tree-4", 9, n=4, entries=1, keys=2)
        add("h_extended", "extended-3-both", 9, n=3, kinds=[0x83, 5, 5])
        for what in ("catalog", "blocks", "bitmap"):
            add("h_chain", f"chain-{what}-5", 6, ticks=50000 if what == "catalog" else 2000000, n=5, what=what)
        for i, head in enumerate(("", "volume ", "sd name a drive b length ")):
            add("h_vinum_text", f"vinum-{i}-5", 6, head=head, n=5)
    return out


PROPERTIES = {
    "P24": {
        "jobs": jobs_p24,
        "terminates": True,
        "must_reach": ["tree: refused", "tree: answered", "catalog: answered", "blocks: answered", "bitmap: answered", 
                       "extended: answered", "volumes: refused", "array: refused", "array: answered", "striped: answered", "thin: refused", "short: answered",
                       "text: answered", "text: refused"],
        "bounds": "B-trees of 1-3 nodes (thorough 4) with 1-2 entries, any kinds, counts, keys and child links among the nodes, lookups of 1-2 keys; VSS catalog, descriptor, bitmap and range lists of 1-3 blocks (thorough 5) at free places with any links among them; 1-3 extended partition tables at free places with any links among them, 1-2 links each; 1-3 LVM mirror, thin and thin-pool volumes that name each other in any way; RAID arrays of all levels with 1-2 members and chunk size, layout, member count and size from sets that contain zero; LVM striped segments with stripe count, stripe size, extent size and extents from sets that contain zero; thin pools with data and metadata block sizes from a set that contains zero; arrays, partitions, thin devices and logical volumes of 2 MiB whose first source ends anywhere in the first MiB, reads of up to 9000 bytes in the first MiB; Vinum text with 3 free bytes (thorough 5) behind 4 beginnings, LVM text with 3 free characters of a=[]{}#\" space and newline in 4 surroundings; 50000 loop steps per path (2000000 for the VSS lists, whose bitmaps alone have that many steps)",
        "outside": "the time taken by metadata that is well formed but large (entry counts of GPT, APM and the superblocks are bounded by what can be read); sources of infinite length; DDF and MD records (fixed layout, no links)",
    },
}
