"""SNIA DDF: decoding of the on-disk sections and assembly of virtual disks."""

from __future__ import annotations

from checks.common import must, read_at
from checks.raid import parity_oracle, raid10_oracle

HEADER, CONTROLLER, PHYSICAL, VIRTUAL, CONFIG, DATA = 0xDE11DE11, 0xAD111111, 0x22222222, 0xDDDDDDDD, 0xEEEEEEEE, 0x33333333
NONE = 0xFFFFFFFF


class Writer:
    """Writes big-endian fields into a region."""

    def __init__(self, r):
        self.r = r

    def u(self, off, size, value):
        self.r.uint(off, size, value, "big")

    def put(self, off, data):
        self.r.put(off, data)


def header(w, fh, base, name, *, guid, primary, secondary, record_len, max_primary, sections, signature=HEADER, blank=False):
    r = Writer(w.region(fh, base, 512, name))
    r.u(0, 4, signature)
    r.put(8, guid)
    r.u(96, 8, primary)
    r.u(104, 8, secondary)
    r.u(134, 2, record_len)
    r.u(136, 2, max_primary)
    # controller data, physical disks, virtual disks, configuration records, physical disk data
    for k, (start, length) in enumerate(sections):
        r.u(192 + 8 * k, 4, start)
        r.u(196 + 8 * k, 4, length)


def config_record(r, base, *, guid, level, qualifier, primary, strip, refs, starts, max_primary, vd_size, block_size=0xFFFF,
                  block_count=0, secondary=1, seq=0, second_level=0, timestamp=0, number=0, signature=CONFIG):
    r.u(base, 4, signature)
    r.put(base + 8, guid)
    r.u(base + 32, 4, timestamp)
    r.u(base + 36, 4, number)
    r.u(base + 64, 2, primary)
    r.u(base + 66, 1, strip)
    r.u(base + 67, 1, level)
    r.u(base + 68, 1, qualifier)
    r.u(base + 69, 1, secondary)
    r.u(base + 70, 1, seq)
    r.u(base + 71, 1, second_level)
    r.u(base + 72, 8, block_count)
    r.u(base + 80, 8, vd_size)
    r.u(base + 88, 2, block_size)
    for i in range(max_primary):
        r.u(base + 512 + 4 * i, 4, refs[i] if i < len(refs) else NONE)
    for i in range(max_primary):
        r.u(base + 512 + 4 * max_primary + 8 * i, 8, starts[i] if i < len(starts) else 0)


class Disk:
    """One member: where its sections are and what identifies it."""

    def __init__(self, w, name, sector, blocks_hi=1 << 40, layout=0):
        self.w, self.name, self.sector, self.layout = w, name, sector, layout
        self.ref = None
        self.size = w.int(f"{name}.sectors", 1 << 16, blocks_hi) * sector
        self.fh = w.file(name, size=self.size)
        self.primary = w.int(f"{name}.primary", 1 << 12, 1 << 15)

    def write(self, *, guid, ref, others, vds, records, max_primary, capacity, block_size=0xFFFF, record_len=2, gaps=(), vd_table=None,
              pd_guid=b"P" * 24, sig=()):
        """``others``: (ref, blocks, block size) of every physical disk; ``vds``: (guid, type, name) entries;
        ``records``: configuration records in slot order, None for a slot not in use."""
        w, s = self.w, self.sector
        self.ref = ref
        sig = {"anchor": HEADER, "controller": CONTROLLER, "pds": PHYSICAL, "vds": VIRTUAL, "pdd": DATA, **dict(sig)}
        # two arrangements of the sections behind the header
        order = [(1, 1), (2, 8), (10, 8), (18, record_len * len(records)), (40, 1)] if self.layout == 0 else \
            [(60, 1), (30, 8), (20, 8), (40, record_len * len(records)), (7, 1)]
        kw = dict(guid=guid, primary=self.primary, secondary=0xFFFFFFFFFFFFFFFF, record_len=record_len, max_primary=max_primary,
                  sections=order)
        header(w, self.fh, self.size - s, "anchor", signature=sig["anchor"], **kw)
        base = self.primary * s
        header(w, self.fh, base, "primary", **kw)
        r = Writer(w.region(self.fh, base + order[0][0] * s, 512, "controller"))
        r.u(0, 4, sig["controller"])
        r = Writer(w.region(self.fh, base + order[1][0] * s, 64 + 64 * len(others), "pds"))
        r.u(0, 4, sig["pds"])
        r.u(8, 2, len(others))
        r.u(10, 2, len(others))
        for i, (oref, blocks, bs) in enumerate(others):
            r.u(64 + 64 * i + 24, 4, oref)
            r.u(64 + 64 * i + 32, 8, blocks)
            r.u(64 + 64 * i + 58, 2, bs)
        table = vd_table if vd_table is not None else vds
        r = Writer(w.region(self.fh, base + order[2][0] * s, 64 + 64 * len(table), "vds"))
        r.u(0, 4, sig["vds"])
        r.u(8, 2, len([t for t in table if t is not None]))
        r.u(10, 2, len(table))
        for i, entry in enumerate(table):
            b = 64 + 64 * i
            if entry is None:
                r.put(b, b"\xff" * 64)
                continue
            vguid, vtype, vname = entry
            r.put(b, vguid)
            r.u(b + 28, 4, vtype)
            r.put(b + 48, vname)
            if len(vname) < 16:
                r.put(b + 48 + len(vname), b"\x00" * (16 - len(vname)))
        r = Writer(w.region(self.fh, base + order[3][0] * s, record_len * s * len(records), "configs"))
        for i, rec in enumerate(records):
            if rec is None:
                r.put(i * record_len * s, b"\xff" * 1024)
            else:
                config_record(r, i * record_len * s, max_primary=max_primary, **rec)
        r = Writer(w.region(self.fh, base + order[4][0] * s, 512, "pdd"))
        r.u(0, 4, sig["pdd"])
        r.put(8, pd_guid)
        r.u(32, 4, ref)
        return self


def vd_guid(w, tag):
    return w.bytes(f"{tag}.guid", 2) + b"T10-vendor----" + b"\x11" + w.bytes(f"{tag}.stamp", 2) + bytes([0x44, 0x55, 0x66, 0x77, 0x88])


GUID = b"ddf-header-guid-0123456789"[:24]

# DDF level and qualifier -> level and layout of the equivalent Linux array
LAYOUTS = {
    (0x1F, 0): (-1, None), (0x00, 0): (0, None), (0x04, 1): (4, None),
    (0x05, 0): (5, 1), (0x05, 2): (5, 0), (0x05, 3): (5, 2),
    (0x06, 1): (6, 8), (0x06, 2): (6, 9), (0x06, 3): (6, 10),
    (0x11, 0): (10, 0x102), (0x11, 1): (10, 0x201),
}


def h_assemble(w, prl, rlq, n, strip, sector=512, secondary=1, gaps=False):
    """Every byte of an assembled virtual disk comes from the place the configuration record names."""
    from dissect.volume.ddf.ddf import DDF

    per = n // secondary
    explicit_bs = w.pick("block size", ["default", "explicit"]) == "explicit"
    bs = sector if explicit_bs else 0xFFFF
    guid = vd_guid(w, "vd")
    light = n > 3
    refs = [w.int(f"ref{i}", 0, NONE - 1) for i in range(n)] if not light else [0x1000 + 7 * i for i in range(n)]
    for i in range(n):
        for j in range(i):
            w.assume(refs[i] != refs[j])
    disks = [Disk(w, f"d{i}", sector, layout=i % 2) for i in range(n)]
    starts = [w.int(f"start{i}", 0, 1 << 11) for i in range(n)]
    caps = [w.int(f"cap{i}", 1 << 12, 1 << 36) for i in range(n)]
    for i in range(n):
        w.assume(caps[i] <= disks[i].primary)
        w.assume(starts[i] < caps[i])
    blocks = 1 << strip
    if (prl, rlq) == (0x1F, 0):
        vd_size = 0
        for i in range(n):
            vd_size = vd_size + caps[i] - starts[i]
    else:
        # every member contributes the same number of whole strips, the disks may hold more
        rows = w.int("strips", 1, 1 << 36)
        for i in range(n):
            w.assume(starts[i] + rows * blocks <= caps[i])
        vd_size = rows * blocks * {0: n, 1: 1, 4: n - 1, 5: n - 1, 6: n - 2}.get(prl, 1)
        if prl == 0x11 or secondary > 1:
            vd_size = rows * n // (per if secondary > 1 else 2) * blocks
    others = [(refs[i], caps[i], bs) for i in range(n)]
    # slots of the record that are not in use can be before, between and behind those that are
    max_primary = per + 2 if gaps else per + 1
    slots = w.pick("slots", [[1] + list(range(2, per + 1)), [0] + list(range(2, per + 1)), [0] + list(range(3, per + 2))]) if gaps else list(range(per))

    def spread(values, unused):
        return [values[slots.index(k)] if k in slots else unused for k in range(max_primary)]
    for i, d in enumerate(disks):
        seq = i // per
        lo, hi = seq * per, seq * per + per
        rec = dict(guid=guid, level=prl, qualifier=rlq, primary=per, strip=strip, refs=spread(refs[lo:hi], NONE),
                   starts=spread(starts[lo:hi], 0), vd_size=vd_size, block_size=bs, secondary=secondary, seq=seq, second_level=0, block_count=caps[i] - starts[i])
        d.write(guid=GUID, ref=refs[i], others=others[i:] + others[:i], vds=[(guid, 0, b"volume")], records=[rec],
                max_primary=max_primary, capacity=caps[i], block_size=bs)
    files = [d.fh for d in disks]
    k = w.pick("order", [0, 1, 2] if n > 1 and not light else [0, 1])
    files = [files, files[::-1], files[1:] + files[:1]][k]
    for f in files:
        f.seek(w.int("havoc", 0, 1 << 40))
    ddf = must(w, "assembling", DDF, files, *([] if sector == 512 else [sector]))
    w.check(len(ddf.configurations) == 1 and len(ddf.configurations[0].virtual_disks) == 1, "one virtual disk")
    vd = ddf.configurations[0].virtual_disks[0]
    if secondary > 1:
        level, layout = 10, {2: 0x102, 3: 0x103}[per]
    elif prl == 1:
        level, layout = 1, None
    else:
        level, layout = LAYOUTS[prl, rlq]
    chunk = (1 << strip) * sector
    w.check(vd.level == level, "level")
    w.check(vd.size == vd_size * sector, "size")
    w.check(vd.name == "volume", "name")
    if layout is not None:
        w.check(vd.layout == layout, "layout")
    w.check(vd.num_disks == n, "number of members")
    w.check(vd.stripe_size == chunk, "strip size")
    w.reach("assembled")
    w.observe("size", vd.size)
    fh = must(w, "open", vd.open)
    for f in files:
        f.seek(w.int("havoc2", 0, 1 << 40))
    where = {i: (disks[i].fh, starts[i] * sector) for i in range(n)}
    avail = [(caps[i] - starts[i]) * sector for i in range(n)]
    if level == -1:
        pos = w.int("pos", 0, 1 << 50)

        def at(a):
            base = 0
            for i in range(n - 1):
                if w.fork(a < base + avail[i]):
                    return ("at", disks[i].fh, starts[i] * sector + a - base)
                base = base + avail[i]
            return ("at", disks[n - 1].fh, starts[n - 1] * sector + a - base)
    elif level == 0:
        pos = w.mixed("pos", [(chunk, False), (n, True)], 1 << 48)

        def at(a):
            f, start = where[w.concrete((a // chunk) % n)]
            return ("at", f, start + (a // chunk) // n * chunk + a % chunk)
    elif level == 1:
        pos = w.int("pos", 0, 1 << 48)

        def at(a):
            return ("any", [("at", f, s + a) for f, s in where.values()])
    elif level == 10:
        at, radices = raid10_oracle(w, n, layout, chunk, where)
        pos = w.mixed("pos", radices, 1 << 48)
        if layout >> 8 & 0xFF > 1:
            for i in range(1, n):
                w.assume(caps[i] == caps[0])
                w.assume(starts[i] == starts[0])
    else:
        at, radices = parity_oracle(w, level, layout, n, chunk, where)
        pos = w.mixed("pos", radices, 1 << 48)
    length = w.int("len", 1, 600)
    w.assume(pos + length <= vd_size * sector)
    read_at(w, fh, None, at, "read", 600, pos=pos, length=length)


def h_concat_extents(w):
    """Members of a concatenation contribute the extent they are configured with."""
    from dissect.volume.ddf.ddf import DDF

    n, refs, guid = 2, [1, 2], vd_guid(w, "vd")
    disks = [Disk(w, f"d{i}", 512) for i in range(n)]
    starts = [w.int(f"start{i}", 0, 1 << 10) for i in range(n)]
    caps = [w.int(f"cap{i}", 1 << 11, 1 << 12) for i in range(n)]
    counts = [w.int(f"count{i}", 1, 1 << 12) for i in range(n)]
    for i in range(n):
        w.assume(starts[i] + counts[i] <= caps[i])
    vd_size = counts[0] + counts[1]
    for i, d in enumerate(disks):
        rec = dict(guid=guid, level=0x1F, qualifier=0, primary=n, strip=0, refs=refs, starts=starts, vd_size=vd_size,
                   block_count=counts[i])
        d.write(guid=GUID, ref=refs[i], others=[(refs[k], caps[k], 0xFFFF) for k in range(n)], vds=[(guid, 0, b"v")], records=[rec],
                max_primary=4, capacity=1)
    ddf = must(w, "assembling", DDF, [d.fh for d in disks])
    vd = ddf.configurations[0].virtual_disks[0]
    w.check(vd.size == vd_size * 512, "size")
    fh = must(w, "open", vd.open)

    def spread(extents):
        def at(a):
            if w.fork(a < extents[0] * 512):
                return ("at", disks[0].fh, starts[0] * 512 + a)
            return ("at", disks[1].fh, starts[1] * 512 + a - extents[0] * 512)
        return at
    pos, length = w.int("pos", 0, 1 << 30), w.int("len", 1, 600)
    w.assume(pos + length <= vd_size * 512)
    must(w, "seek", fh.seek, pos)
    got = must(w, "read", fh.read, length)
    at, dev = spread(counts), spread([caps[k] - starts[k] for k in range(n)])
    # recorded finding: a member contributes everything up to its configured size
    w.check_bytes(got, length, lambda i: at(pos + i), "read", known=("K-P10-concat-extent", lambda i: dev(pos + i)))
    w.reach("extents")


def h_decode(w, sector=512):
    """What one disk says about itself and its virtual disks is reported as recorded."""
    from dissect.volume.ddf.ddf import DDFPhysicalDisk

    d = Disk(w, "d", sector, layout=w.pick("arrangement", [0, 1]))
    ref = w.int("ref", 0, NONE - 1)
    other = w.int("other", 0, NONE - 1)
    w.assume(ref != other)
    cap, ocap = w.int("cap", 0, 1 << 40), w.int("ocap", 0, 1 << 40)
    ga, gb = vd_guid(w, "a"), vd_guid(w, "b")
    k = w.pick("name length", [0, 5, 16])
    name = w.bytes("name", k)
    for i in range(k):
        w.assume(w.and_(name[i] > 0x20, name[i] < 0x7F))
    utf8 = w.pick("utf-8 name", [False, True])
    vname, vtype, text = (name, w.int("type", 0, 3), name.decode()) if not utf8 else ("vøl".encode(), 4 + w.int("type", 0, 3), "vøl")
    stamp, size, bsize = w.int("stamp", 0, NONE), w.int("vd_size", 0, 1 << 50), w.int("bs", 0, 0xFFFF)
    strip, level, number = w.int("strip", 0, 20), w.int("level", 0, 255), w.int("number", 0, NONE)
    count = w.pick("used", [1, 3])
    refs = [w.int(f"r{i}", 0, NONE) for i in range(3)]
    starts = [w.int(f"s{i}", 0, 1 << 50) for i in range(3)]
    rec = dict(guid=gb, level=level, qualifier=w.int("rlq", 0, 255), primary=count, strip=strip, refs=refs[:count],
               starts=starts[:count], vd_size=size, block_size=bsize, timestamp=stamp, number=number, secondary=w.int("sec", 1, 8),
               seq=w.int("seq", 0, 7), second_level=w.int("srl", 0, 3))
    pbs = w.pick("disk block size", [0xFFFF, 512, 4096])
    mine = w.pick("own entry", [0, 1])
    others = [(ref, cap, pbs), (other, ocap, 0xFFFF)]
    d.write(guid=GUID, ref=ref, others=others if mine == 0 else others[::-1], vds=[(gb, vtype, vname)], records=[rec],
            max_primary=4, capacity=cap)
    d.fh.seek(w.int("havoc", 0, 1 << 40))
    pd = must(w, "opening a disk", DDFPhysicalDisk, d.fh, *([] if sector == 512 else [sector]))
    w.check(pd.reference == ref, "reference")
    w.check(pd.guid == b"P" * 24, "disk guid")
    w.check(pd.size == cap * (sector if pbs == 0xFFFF else pbs), "disk size")
    w.check(len(pd.virtual_disk_records) == 1 and len(pd.virtual_disk_configuration_records) == 1, "one of each")
    v, c = pd.virtual_disk_records[0], pd.virtual_disk_configuration_records[0]
    w.check(v.guid == gb, "virtual disk guid")
    w.check(v.name == text, "virtual disk name")
    w.check(c.guid == gb, "record guid")
    w.check(c.timestamp == w.time((stamp + 3600 * 24 * (365 * 10 + 2)) * 1000000), "record time")
    w.check(c.guid_timestamp == w.time((_stamp(gb) + 3600 * 24 * (365 * 10 + 2)) * 1000000),
            "time in the guid")
    for attr, want in (("size", size), ("block_size", bsize), ("strip_size", strip), ("primary_raid_level", level),
                       ("raid_level_qualifier", rec["qualifier"]), ("sequence_number", number), ("primary_element_count", count),
                       ("secondary_element_count", rec["secondary"]), ("secondary_element_seq", rec["seq"]),
                       ("secondary_raid_level", rec["second_level"])):
        w.check(getattr(c, attr) == want, attr)
    w.check(len(c.physical_disk_sequence) >= count and len(c.starting_block) >= count, "entries of all members")
    for i in range(count):
        w.check(c.physical_disk_sequence[i] == refs[i], "member reference")
        w.check(c.starting_block[i] == starts[i], "member start")
    w.reach("decoded")
    w.observe("size", pd.size)
    w.observe("ref", pd.reference)


def _stamp(guid):
    raw = guid[16:20]
    out = 0
    for b in raw:
        out = out * 256 + b
    return out


def h_tables(w, holes):
    """Slots of the tables that are not in use do not hide the ones that are."""
    from dissect.volume.ddf.ddf import DDF

    n = 2
    guids = [vd_guid(w, "a"), vd_guid(w, "b")]
    w.assume(w.not_(guids[0] == guids[1]))
    disks = [Disk(w, f"d{i}", 512) for i in range(n)]
    refs = [0x100, 0x200]
    sizes = [w.int("sizeA", 1, 1 << 40), w.int("sizeB", 1, 1 << 40)]
    startA, startB = w.int("startA", 0, 1 << 10), w.int("startB", 0, 1 << 10)
    rec = [dict(guid=guids[0], level=0, qualifier=0, primary=2, strip=3, refs=refs, starts=[startA] * 2, vd_size=sizes[0]),
           dict(guid=guids[1], level=1, qualifier=0, primary=2, strip=3, refs=refs[::-1], starts=[startB] * 2, vd_size=sizes[1])]
    vde = [(guids[0], 0, b"first"), (guids[1], 0, b"second")]

    def spread(items, k):
        return {0: items, 1: [None] + items, 2: [items[0], None, items[1]], 3: [None, items[1], None, items[0], None]}[k]
    vk, rk = w.pick("entries", holes), w.pick("records", holes)
    for i, d in enumerate(disks):
        d.write(guid=GUID, ref=refs[i], others=[(r, 1 << 12, 0xFFFF) for r in refs], vds=vde, vd_table=spread(vde, vk),
                records=spread(rec, rk), max_primary=4, capacity=1 << 12)
    ddf = must(w, "assembling", DDF, [d.fh for d in disks])
    vds = ddf.configurations[0].virtual_disks
    w.check(len(vds) == 2, "two virtual disks")
    seen = []
    for vd in vds:
        k = 0 if w.fork(vd.uuid == w.hex(guids[0])) else 1
        seen.append(k)
        w.check(vd.uuid == w.hex(guids[k]), "identity")
        w.check(vd.name == ["first", "second"][k], "name")
        w.check(vd.size == sizes[k] * 512, "size")
        w.check(vd.level == k, "level")
        start = startB if k else startA
        members = [vd.disk_map[i] for i in range(2)]
        w.check([m[1].fh is d.fh for m, d in zip(members, disks[::-1] if k else disks)] == [True, True], "members in order")
    w.check(sorted(seen) == [0, 1], "both")
    w.reach("tables")
    w.observe("n", len(vds))


def h_two_groups(w):
    """Disks of different groups are not mixed."""
    from dissect.volume.ddf.ddf import DDF

    ga, gb = w.bytes("ga", 2) + GUID[2:], w.bytes("gb", 2) + GUID[2:]
    guids = [vd_guid(w, "a"), vd_guid(w, "b")]
    disks = []
    for g in range(2):
        for i in range(2):
            refs = [0x10, 0x20]
            rec = dict(guid=guids[g], level=g, qualifier=0, primary=2, strip=3, refs=refs, starts=[0, 0], vd_size=100 + g)
            disks.append(Disk(w, f"g{g}d{i}", 512).write(guid=(ga, gb)[g], ref=refs[i], others=[(r, 1 << 12, 0xFFFF) for r in refs],
                                                        vds=[(guids[g], 0, b"g%d" % g)], records=[rec], max_primary=4, capacity=1))
    if w.fork(ga == gb):
        return
    order = w.pick("order", [[0, 1, 2, 3], [3, 1, 0, 2], [2, 0, 3, 1]])
    ddf = must(w, "assembling", DDF, [disks[i].fh for i in order])
    w.check(len(ddf.configurations) == 2, "two groups")
    for conf in ddf.configurations:
        vd = conf.virtual_disks[0]
        g = 0 if vd.name == "g0" else 1
        mine = [disks[2 * g].fh, disks[2 * g + 1].fh]
        w.check(len(conf.virtual_disks) == 1 and vd.level == g and vd.name == f"g{g}", "its own virtual disk")
        w.check([vd.disk_map[i][1].fh is mine[i] for i in range(2)] == [True, True], "its own members")
    w.reach("two groups")


def h_reject(w, section):
    """A damaged signature is an error of the package, not a misread disk."""
    from dissect.volume.ddf.ddf import DDFPhysicalDisk
    from dissect.volume.exceptions import DDFError

    bad = w.int("signature", 0, NONE)
    w.assume(bad != {"anchor": HEADER, "controller": CONTROLLER, "pds": PHYSICAL, "vds": VIRTUAL, "pdd": DATA}[section])
    d = Disk(w, "d", 512)
    rec = dict(guid=vd_guid(w, "a"), level=0, qualifier=0, primary=1, strip=3, refs=[1], starts=[0], vd_size=5)
    d.write(guid=GUID, ref=1, others=[(1, 5, 0xFFFF)], vds=[(rec["guid"], 0, b"x")], records=[rec], max_primary=4, capacity=1,
            sig={section: bad})
    _, err = w.call(DDFPhysicalDisk, d.fh)
    w.check(err is not None and isinstance(err, DDFError), "rejected with DDFError")
    w.reach("rejected")


SUPPORTED = {(0x1F, None), (0, 0), (4, 1), (5, 0), (5, 2), (5, 3), (6, 1), (6, 2), (6, 3), (0x11, 0), (0x11, 1)}
LEVELS = [0x00, 0x01, 0x03, 0x04, 0x05, 0x06, 0x11, 0x15, 0x1F]


def h_unsupported(w, n, secondary=1):
    """A layout that cannot be read is refused, not read as another one."""
    from dissect.volume.ddf.ddf import DDF

    guid, per = vd_guid(w, "vd"), n // secondary
    level, qualifier = w.pick("level", LEVELS), w.int("qualifier", 0, 255)
    second = w.int("second", 0, 255) if secondary > 1 else 0
    refs = [0x10 * (i + 1) for i in range(n)]
    disks = []
    for i in range(n):
        seq = i // per
        rec = dict(guid=guid, level=level, qualifier=qualifier, primary=per, strip=3, refs=refs[seq * per : seq * per + per],
                   starts=[0] * per, vd_size=800, secondary=secondary, seq=seq, second_level=second)
        disks.append(Disk(w, f"d{i}", 512).write(guid=GUID, ref=refs[i], others=[(r, 1 << 12, 0xFFFF) for r in refs],
                                                 vds=[(guid, 0, b"v")], records=[rec], max_primary=4, capacity=1))
    _, err = w.call(DDF, [d.fh for d in disks])
    if level == 0x1F:
        ok = True
    elif level == 0x01:
        ok = qualifier == {2: 0, 3: 1}[per]
    else:
        ok = w.or_(*(qualifier == q for lv, q in SUPPORTED if lv == level)) if any(lv == level for lv, _ in SUPPORTED) else False
    if secondary > 1:
        # striped (0) and spanned (3) mirrors
        ok = w.and_(level == 0x01, w.or_(second == 0, second == 3))
        w.assume(w.or_(w.not_(ok), qualifier == {2: 0, 3: 1}[per]))
    if w.fork(ok):
        w.check(err is None, "supported")
        w.reach("supported layout")
    else:
        w.check(err is not None and isinstance(err, ValueError), "refused")
        w.reach("refused layout")


def h_single(w):
    """One disk can be given without a list, and opened before."""
    from dissect.volume.ddf.ddf import DDF, DDFPhysicalDisk

    guid, size = vd_guid(w, "vd"), w.int("size", 1, 1 << 40)
    d = Disk(w, "d", 512)
    rec = dict(guid=guid, level=0x1F, qualifier=0, primary=1, strip=3, refs=[7], starts=[w.int("start", 0, 1 << 10)], vd_size=size)
    d.write(guid=GUID, ref=7, others=[(7, 1 << 12, 0xFFFF)], vds=[(guid, 0, b"v")], records=[rec], max_primary=4, capacity=1)
    form = w.pick("form", ["list", "bare", "disk", "disks"])
    given = d.fh if form in ("list", "bare") else must(w, "opening", DDFPhysicalDisk, d.fh)
    ddf = must(w, "assembling", DDF, [given] if form in ("list", "disks") else given)
    w.check(len(ddf.configurations) == 1 and len(ddf.configurations[0].virtual_disks) == 1, "one virtual disk")
    w.check(ddf.configurations[0].virtual_disks[0].size == size * 512, "size")
    w.reach("single disk")


def h_stale(w, level):
    """The most recent record of a virtual disk counts, whichever disk has it."""
    from dissect.volume.ddf.ddf import DDF

    guid, refs = vd_guid(w, "vd"), [0x10, 0x20, 0x30]
    old, new = w.int("old", 0, NONE - 1), w.int("new", 1, NONE)
    w.assume(old < new)
    sizes = [w.int("old size", 1, 1 << 40), w.int("new size", 1, 1 << 40)]
    starts = [[w.int(f"start{k}.{i}", 0, 1 << 10) for i in range(2)] for k in range(2)]
    # the first disk took the place of the last one
    members = [[2, 1], [0, 1]]
    disks = [Disk(w, f"d{i}", 512) for i in range(3)]
    for i, d in enumerate(disks):
        k = 0 if i == 2 else 1
        rec = dict(guid=guid, level=level, qualifier=0, primary=2, strip=3, refs=[refs[j] for j in members[k]], starts=starts[k],
                   vd_size=sizes[k], number=(old, new)[k])
        d.write(guid=GUID, ref=refs[i], others=[(r, 1 << 12, 0xFFFF) for r in refs], vds=[(guid, 0, b"v")], records=[rec],
                max_primary=4, capacity=1)
    order = w.pick("order", [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]])
    ddf = must(w, "assembling", DDF, [disks[i].fh for i in order])
    w.check(len(ddf.configurations) == 1 and len(ddf.configurations[0].virtual_disks) == 1, "one virtual disk")
    vd = ddf.configurations[0].virtual_disks[0]
    w.check(vd.size == sizes[1] * 512, "size in the newest record")
    w.check(sorted(vd.disk_map) == [0, 1] and all(vd.disk_map[i][1].fh is disks[i].fh for i in range(2)), "members of the newest record")
    for i in range(2):
        w.check(vd.disk_map[i][0] == starts[1][i] * 512, "start in the newest record")
    w.reach("newest record")


def jobs_p10(tier):
    out = []

    def add(prl, rlq, n, strip=3, sector=512, secondary=1, gaps=False):
        name = f"level{prl:#x}-{rlq}-n{n}-strip{strip}-sector{sector}-sec{secondary}" + ("-gaps" if gaps else "")
        out.append({"name": name, "fn": "h_assemble", "weight": n,
                    "cfg": {"prl": prl, "rlq": rlq, "n": n, "strip": strip, "sector": sector, "secondary": secondary, "gaps": gaps}})

    add(0x1F, 0, 2)
    add(0, 0, 2, 4)
    add(1, 0, 2)
    add(1, 1, 3)
    add(4, 1, 3)
    for q in (0, 2, 3):
        add(5, q, 3)
    for q in (1, 2, 3):
        add(6, q, 4)
    add(0x11, 0, 3)
    add(0x11, 1, 3)
    add(1, 0, 4, secondary=2)
    add(0, 0, 2, 2, sector=4096)
    add(0, 0, 2, 4, gaps=True)
    add(5, 0, 3, gaps=True)
    if tier == "thorough":
        add(0x1F, 0, 3)
        add(0, 0, 3)
        for q in (0, 2, 3):
            add(5, q, 5, 7)
        for q in (1, 2, 3):
            add(6, q, 5, 7)
        add(1, 1, 6, secondary=2)
        add(1, 0, 6, secondary=3)
        add(5, 2, 4, 1, sector=4096)
    out.append({"name": "decode", "fn": "h_decode", "cfg": {}, "weight": 9})
    out.append({"name": "decode-4k", "fn": "h_decode", "cfg": {"sector": 4096}, "weight": 9})
    out.append({"name": "tables", "fn": "h_tables", "cfg": {"holes": [0, 1, 2, 3]}})
    out.append({"name": "concat-extents", "fn": "h_concat_extents", "cfg": {}})
    for n, secondary in ((2, 1), (3, 1), (4, 2)):
        out.append({"name": f"unsupported-{n}-{secondary}", "fn": "h_unsupported", "cfg": {"n": n, "secondary": secondary}})
    for level in (0, 1):
        out.append({"name": f"stale-{level}", "fn": "h_stale", "cfg": {"level": level}})
    out.append({"name": "single", "fn": "h_single", "cfg": {}})
    out.append({"name": "two-groups", "fn": "h_two_groups", "cfg": {}})
    out += [{"name": f"reject-{s}", "fn": "h_reject", "cfg": {"section": s}} for s in ("anchor", "controller", "pds", "vds", "pdd")]
    return out


PROPERTIES = {
    "P10": {
        "jobs": jobs_p10,
        "must_reach": ["assembled", "decoded", "tables", "two groups", "rejected", "read-compared", "extents", "supported layout",
                       "refused layout", "single disk", "newest record"],
        "bounds": "disks of up to 2^40 sectors of 512 (decoding, RAID0: also 4096) bytes, headers at a free LBA with two arrangements of "
                  "the sections behind it, free references, capacities, starting blocks and identities; concatenation and RAID0 of 2 "
                  "(thorough: 3), RAID1 of 2 and 3, RAID4/5 of 3 (thorough: 5), RAID6 of 4 (5), RAID1E of 3, striped mirrors of 4 (6) disks "
                  "with strips of 4 to 64 KiB; 2 or 3 orders of the disks; reads of 1..600 bytes at any position; tables with unused slots "
                  "before, between and behind two virtual disks, and records with unused slots among those of the members; any wrong section "
                  "signature; every qualifier of 9 levels and (two mirrors) every secondary level; a third disk with an older record of the "
                  "virtual disk, any sequence numbers",
        "outside": "records of one sequence number disagreeing about one virtual disk, sequence numbers that wrap, secondary headers, spares, bad block logs, RAID3/5E/5EE/MDF, "
                   "checksums, non-ASCII names other than one sample",
    },
}
