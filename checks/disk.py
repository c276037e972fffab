"""Partition tables: MBR, GPT, APM, BSD disklabels, and the detection among them."""

from __future__ import annotations

from uuid import UUID

from checks.common import must, read_at

EXTENDED = (0x05, 0x0F, 0x85)
BSD_TYPES = (0xA5, 0xA6, 0xA9, 0x6C)
BSD_GUIDS = ("9d087404-1ca5-11dc-8817-01301bb8a9f5", "3d48ce54-1d16-11dc-8696-01301bb8a9f5",
             "516e7cb4-6ecf-11d6-8ff8-00022d09712b")
LINUX = "0fc63daf-8483-4772-8e79-3d69d8477de4"
MAX32 = (1 << 32) - 1
SIZE = 1 << 60


# -- building images ---------------------------------------------------------------------


def boot_sector(w, fh, at, name, entries, code=b"", bootsig=0xAA55, vol=0):
    """``entries``: {slot: (flag, type, first sector, sectors)}."""
    r = w.region(fh, at, 512, name)
    if code is not None:
        r.put(0, code.ljust(0x1B8, b"\x00"))
    r.uint(0x1B8, 4, vol)
    r.uint(0x1BC, 2, 0)
    for i in range(4):
        flag, kind, first, count = entries.get(i, (0, 0, 0, 0))
        base = 0x1BE + 16 * i
        r.put(base, b"\x00" * 16)
        r.uint(base, 1, flag)
        r.put(base + 1, b"\xaa\xbb\xcc")
        r.uint(base + 4, 1, kind)
        r.put(base + 5, b"\xdd\xee\xff")
        r.uint(base + 8, 4, first)
        r.uint(base + 12, 4, count)
    r.uint(510, 2, bootsig)
    return r


def gpt(w, fh, ss, at, lba, entries, count, esize, signature=b"EFI PART", tag="gpt"):
    """A header at byte ``at`` and a partition array at ``lba``; entries are (type, guid, first, last, flags, name)."""
    h = w.region(fh, at, 512, f"{tag}.hdr")
    h.put(0, bytes(512))
    h.put(0, signature)
    h.uint(24, 8, 1)
    h.uint(40, 8, w.int(f"{tag}.first usable", 0, 1 << 40))
    h.uint(72, 8, lba)
    h.uint(80, 4, count)
    h.uint(84, 4, esize)
    if not count:
        return
    t = w.region(fh, lba * ss, count * esize, f"{tag}.table")
    for i in range(count):
        kind, guid, first, last, flags, name = entries[i]
        b = i * esize
        t.put(b, kind)
        t.put(b + 16, guid)
        t.uint(b + 32, 8, first)
        t.uint(b + 40, 8, last)
        t.uint(b + 48, 8, flags)
        t.put(b + 56, name)


def label32(w, fh, at, entries, tag="bsd", magic=0x82564557, magic2=0x82564557):
    """Entries are (size, offset, fstype), in sectors."""
    n = len(entries)
    # the slot of the whole disk is consulted even when the label counts fewer
    r = w.region(fh, at, max(512, 148 + 16 * max(n, 3)), f"{tag}.label")
    r.put(0, bytes(148 + 16 * max(n, 3)))
    r.uint(0, 4, magic)
    r.uint(40, 4, 512)
    r.uint(132, 4, magic2)
    r.uint(138, 2, n)
    for i, (size, off, kind) in enumerate(entries):
        b = 148 + 16 * i
        r.uint(b, 4, size)
        r.uint(b + 4, 4, off)
        r.uint(b + 8, 4, 2048)
        r.uint(b + 12, 1, kind)
        r.uint(b + 13, 1, 8)
    return r


def label64(w, fh, at, entries, tag="bsd"):
    """Entries are (size, offset, fstype, guid), in bytes."""
    n = len(entries)
    r = w.region(fh, at, max(512, 200 + 64 * n), f"{tag}.label")
    r.put(0, bytes(200 + 64 * n))
    r.uint(0, 4, 0xC4464C59)
    r.uint(12, 4, n)
    for i, (size, off, kind, guid) in enumerate(entries):
        b = 200 + 64 * i
        r.uint(b, 8, off)
        r.uint(b + 8, 8, size)
        r.uint(b + 16, 1, kind)
        r.put(b + 32, w.bytes(f"{tag}.type uuid{i}", 16))
        r.put(b + 48, guid)
    return r


def apm(w, fh, block, start, entries, driver=True, tag="apm"):
    """Entries are (first block, blocks, name, type); ``start``: where the map begins."""
    if driver:
        d = w.region(fh, 0, 512, f"{tag}.driver")
        d.put(0, bytes(512))
        d.put(0, b"ER")
        d.uint(2, 2, block, "big")
        d.uint(4, 4, w.int(f"{tag}.blocks", 0, MAX32), "big")
    for i, (first, count, name, kind) in enumerate(entries):
        r = w.region(fh, start + i * block, 512, f"{tag}.entry{i}")
        r.put(0, bytes(512))
        r.put(0, b"PM")
        r.uint(4, 4, len(entries), "big")
        r.uint(8, 4, first, "big")
        r.uint(12, 4, count, "big")
        r.put(16, name)
        r.put(48, kind)


# -- comparing ---------------------------------------------------------------------------


def same_parts(w, got, want, tag=""):
    """``want``: (number, offset, size, type, extras) in order."""
    w.check(len(got) == len(want), f"{tag}number of partitions")
    for i, (number, offset, size, kind, extra) in enumerate(want):
        p = got[i]
        w.check(p.number == number, f"{tag}number of partition")
        w.check(p.offset == offset, f"{tag}offset of partition")
        if isinstance(size, tuple):
            size, kid, deviant = size
            w.check(p.size == size, f"{tag}size of partition", known=(kid, p.size == deviant))
        else:
            w.check(p.size == size, f"{tag}size of partition")
        w.check(p.type == kind, f"{tag}type of partition")
        for attr, value in extra.items():
            if value is None:
                w.check(getattr(p, attr) is None, f"{tag}{attr} of partition")
            else:
                w.check(getattr(p, attr) == value, f"{tag}{attr} of partition")
    w.observe(f"{tag}parts", [(p.offset, p.size) for p in got])


def read_part(w, fh, part, offset, size, max_len=1500, tag="read"):
    """The stream of a partition is its bytes of the source, whatever position the source is at."""
    fh.seek(w.int(f"{tag}.havoc", 0, 1 << 40))
    s = must(w, "open", part.open)
    fh.seek(w.int(f"{tag}.havoc2", 0, 1 << 40))
    read_at(w, s, size, lambda a: ("at", fh, offset + a), tag, max_len)


# -- P13 ---------------------------------------------------------------------------------


def entry(w, tag, kind, lo=1):
    return (w.int(f"{tag}.flag", 0, 255), kind, w.int(f"{tag}.first", lo, MAX32), w.int(f"{tag}.count", 1, MAX32))


def h_primary(w, ss, kinds, read=None):
    """A table of primary partitions, anywhere in the source."""
    from dissect.volume.disk.schemes import MBR

    fh = w.file("disk", size=SIZE)
    start = w.int("start", 0, 1 << 40)
    entries = {i: entry(w, f"e{i}", k) for i, k in enumerate(kinds)}
    vol = w.int("vol", 0, MAX32)
    boot_sector(w, fh, start, "mbr", entries, vol=vol)
    fh.seek(start)
    m = must(w, "opening", MBR, fh, ss)
    want = [(i + 1, start + first * ss, count * ss, kind, {"flags": flag, "name": None, "guid": None})
            for i, (flag, kind, first, count) in entries.items() if kind]
    same_parts(w, m.partitions, want)
    w.check(m.mbr.vol_no == vol, "serial number")
    w.reach("primary")
    if read is not None and want:
        p = w.pick("which", list(range(len(want))))
        read_part(w, fh, m.partitions[p], want[p][1], want[p][2])


def h_type(w):
    """Any type: extended and unused ones aside, it is reported as it is."""
    from dissect.volume.disk.schemes import MBR

    fh = w.file("disk", size=SIZE)
    kind = w.int("type", 0, 255)
    e = entry(w, "e", kind)
    slot = w.pick("slot", [0, 3])
    boot_sector(w, fh, 0, "mbr", {slot: e})
    for k in EXTENDED:
        w.assume(kind != k)
    fh.seek(0)
    m = must(w, "opening", MBR, fh)
    if w.fork(kind == 0):
        w.check(len(m.partitions) == 0, "unused entry")
        w.reach("unused")
        return
    same_parts(w, m.partitions, [(slot + 1, e[2] * 512, e[3] * 512, kind, {"flags": e[0]})])
    w.reach("any type")


def h_chain(w, ss, slot, length, ordered, before=False, after=False, hole=None, kind=0x05):
    """An extended partition holding a chain of logical ones."""
    from dissect.volume.disk.schemes import MBR

    fh = w.file("disk", size=SIZE)
    start = w.int("start", 0, 1 << 30)
    entries = {slot: entry(w, "ext", kind)}
    if before:
        entries[slot - 1] = entry(w, "before", 0x07)
    if after:
        entries[slot + 1] = entry(w, "after", 0x0C)
    boot_sector(w, fh, start, "mbr", entries)
    first = start + entries[slot][2] * ss
    want, at = [], first
    spots = [start]
    for k in range(length):
        e = {}
        logical = None
        if hole != k:
            logical = entry(w, f"l{k}", 0x83)
            e[0] = logical
            want.append((slot + 1 + k, at + logical[2] * ss, logical[3] * ss, 0x83, {"flags": logical[0]}))
        nxt = None
        if k + 1 < length:
            link = entry(w, f"x{k}", w.pick("link type", EXTENDED) if k == 0 else 0x05)
            e[1] = link
            # every link is relative to the first sector of the extended partition
            nxt = first + link[2] * ss
        boot_sector(w, fh, at, f"ebr{k}", e)
        for s in spots:
            w.assume(w.or_(at >= s + 512, at + 512 <= s))
        spots.append(at)
        if ordered:
            if logical is not None and nxt is not None:
                w.assume(want[-1][1] + want[-1][2] <= nxt)
            elif nxt is not None:
                w.assume(nxt > at)
        at = nxt
    for j, s in (("before", slot - 1), ("after", slot + 1)):
        if s in entries:
            p = (s + 1, start + entries[s][2] * ss, entries[s][3] * ss, entries[s][1], {"flags": entries[s][0]})
            if j == "before":
                want.insert(0, p)
            else:
                want.append(p)
    fh.seek(start)
    m = must(w, "opening", MBR, fh, ss)
    same_parts(w, m.partitions, want)
    w.reach("chain")
    if ordered:
        read_part(w, fh, m.partitions[-1], want[-1][1], want[-1][2])
        w.reach("logical read")


def h_two_extended(w, ss):
    """Two extended partitions in the primary table: each chain is relative to its own."""
    from dissect.volume.disk.schemes import MBR

    fh = w.file("disk", size=SIZE)
    slots = [0, 2]
    exts = {s: entry(w, f"ext{s}", 0x0F) for s in slots}
    boot_sector(w, fh, 0, "mbr", exts)
    want, spots = [], [0]
    for s in slots:
        first = at = exts[s][2] * ss
        for k in range(2):
            logical = entry(w, f"l{s}.{k}", 0x83)
            e = {0: logical}
            want.append((at + logical[2] * ss, logical[3] * ss))
            if k == 0:
                e[1] = entry(w, f"x{s}", 0x05)
            boot_sector(w, fh, at, f"ebr{s}.{k}", e)
            for o in spots:
                w.assume(w.or_(at >= o + 512, at + 512 <= o))
            spots.append(at)
            if k == 0:
                at = first + e[1][2] * ss
    fh.seek(0)
    m = must(w, "opening", MBR, fh, ss)
    got = m.partitions
    w.check(len(got) == 4, "number of partitions")
    for p, (off, size) in zip(got, want):
        w.check(p.offset == off, "offset of a logical partition")
        w.check(p.size == size, "size of a logical partition")
    w.observe("parts", [(p.offset, p.size) for p in got])
    w.reach("two extended")


def contains(w, data, word):
    return w.or_(*(w.and_(*(data[i + j] == c for j, c in enumerate(word))) for i in range(len(data) - len(word) + 1)))


def h_reject(w, what):
    """Boot sectors of file systems, and sectors without the boot signature, are not tables."""
    from dissect.volume.disk import DiskError
    from dissect.volume.disk.schemes import MBR

    fh = w.file("disk", size=SIZE)
    sig = w.int("bootsig", 0, 65535) if what == "signature" else 0xAA55
    code = bytearray(0x1B8)
    r = boot_sector(w, fh, 0, "mbr", {0: (0, 0x83, 1, 1)}, bootsig=sig)
    bad = sig != 0xAA55
    if what == "oem":
        oem = w.bytes("oem", 8)
        r.put(3, oem)
        words = (b"MSDOS", b"MSWIN", b"NTFS", b"FAT", b"-FVE-FS-", b"SYSLINUX")
        bad = w.or_(*(contains(w, oem, x) for x in words))
    elif what == "qnx1":
        text = w.bytes("qnx", 3)
        r.put(18, b"Hit Esc for .altb")
        r.put(35, text)
        bad = w.and_(*(text[i] == c for i, c in enumerate(b"oot")))
    elif what == "qnx2":
        text = w.bytes("qnx", 6)
        r.put(168, text)
        bad = w.and_(*(text[i] == c for i, c in enumerate(b"\r\nQNX ")))
    fh.seek(0)
    m, err = w.call(MBR, fh, 512)
    del code
    if w.fork(bad):
        w.check(err is not None and isinstance(err, DiskError), f"rejected: {what}")
        w.reach(f"rejected {what}")
    else:
        w.check(err is None, f"accepted: {what}")
        w.reach(f"accepted {what}")


def jobs_p13(tier):
    out = []

    def add(fn, name, weight=3, **cfg):
        out.append({"name": name, "fn": fn, "cfg": cfg, "weight": weight})

    for ss in (512, 4096):
        add("h_primary", f"primary-{ss}", ss=ss, kinds=[0x07, 0x83, 0x0C, 0xEF], read=True)
        add("h_primary", f"holes-{ss}", ss=ss, kinds=[0, 0x82, 0, 0x06], read=True)
        for slot in (0, 1, 3):
            add("h_chain", f"chain-{ss}-s{slot}", 6, ss=ss, slot=slot, length=3, ordered=False, before=slot > 0, kind=EXTENDED[slot % 3])
        add("h_chain", f"chain-{ss}-read", 6, ss=ss, slot=1, length=2, ordered=True, before=True, kind=0x0F)
        add("h_chain", f"chain-{ss}-after", 6, ss=ss, slot=2, length=3, ordered=False, before=True, after=True, kind=0x85)
        add("h_chain", f"chain-{ss}-hole", 6, ss=ss, slot=1, length=3, ordered=False, hole=0)
        add("h_two_extended", f"two-{ss}", ss=ss)
    add("h_primary", "empty", ss=512, kinds=[0, 0, 0, 0])
    add("h_type", "type")
    for what in ("signature", "oem", "qnx1", "qnx2"):
        add("h_reject", f"reject-{what}", what=what)
    if tier == "thorough":
        for ss in (512, 2048, 4096):
            add("h_chain", f"long-{ss}", 9, ss=ss, slot=3, length=7, ordered=False, before=True, kind=0x05)
            add("h_chain", f"long-{ss}-read", 9, ss=ss, slot=2, length=5, ordered=True, hole=2, kind=0x05)
    return out


# -- P14 ---------------------------------------------------------------------------------


def text16(w, tag, n):
    """``n`` symbolic UTF-16 code units, neither NUL nor surrogate nor U+FFFF; returns (bytes, characters)."""
    raw = w.bytes(tag, 2 * n)
    chars = []
    for i in range(n):
        u = raw[2 * i] + raw[2 * i + 1] * 256
        w.assume(w.and_(u > 0, w.or_(u < 0xD800, u > 0xDFFF), u < 0xFFFE))
        chars.append(u)
    return raw, chars


def gpt_entry(w, i, ss, name=b"\x00" * 72, kind=LINUX, used=True):
    if not used:
        return (bytes(16), bytes(16), 0, 0, 0, bytes(72))
    first = w.int(f"g{i}.first", 1, 1 << 40)
    last = first + w.int(f"g{i}.extra", 0, 1 << 40)
    guid = w.bytes(f"g{i}.guid", 16)
    kind = UUID(kind).bytes_le if isinstance(kind, str) else kind
    return (kind, guid, first, last, w.int(f"g{i}.flags", 0, (1 << 64) - 1), name)


def gpt_want(w, i, e, ss, name=""):
    kind, guid, first, last, flags, _ = e
    # recorded finding: the last sector (which the entry counts in) is left out
    return (i + 1, first * ss, ((last - first + 1) * ss, "K-P14-size", (last - first) * ss), w.uuid(kind, le=True),
            {"flags": flags, "guid": w.uuid(guid, le=True), "name": name})


def protective(w, slot=0, others=None, ee=0xEE):
    e = {slot: (0, ee, 1, MAX32)}
    e.update(others or {})
    return e


def h_gpt(w, ss, used, esize, read=False):
    """Entries of any size, anywhere on the disk."""
    from dissect.volume.disk.schemes import GPT

    fh = w.file("disk", size=SIZE)
    lba = w.int("lba", 2, 1 << 40)
    count = len(used)
    boot_sector(w, fh, 0, "mbr", protective(w))
    entries = [gpt_entry(w, i, ss, used=u) for i, u in enumerate(used)]
    gpt(w, fh, ss, ss, lba, entries, count, esize)
    if read:
        for e, u in zip(entries, used):
            if u:
                w.assume(e[2] * ss >= lba * ss + count * esize)
    fh.seek(0)
    g = must(w, "opening", GPT, fh, ss)
    want = [gpt_want(w, i, e, ss) for i, e in enumerate(entries) if used[i]]
    same_parts(w, g.partitions, want)
    w.reach("gpt")
    if read:
        k = w.pick("which", list(range(len(want))))
        offset = want[k][1]
        fh.seek(w.int("havoc", 0, 1 << 40))
        s = must(w, "open", g.partitions[k].open)
        fh.seek(w.int("havoc2", 0, 1 << 40))
        # within what both the specified and the recorded size cover
        pos, length = w.int("pos", 0, 1 << 50), w.int("len", 1, 1500)
        w.assume(pos + length <= want[k][2][2])
        read_at(w, s, None, lambda a: ("at", fh, offset + a), "read", 1500, pos=pos, length=length)


def h_gpt_name(w, n, tail):
    """Names are UTF-16 text up to the first NUL."""
    from dissect.volume.disk.schemes import GPT

    fh = w.file("disk", size=SIZE)
    raw, chars = text16(w, "name", n)
    rest = {"nul": bytes(72 - 2 * n), "junk": (b"\x00\x00" + b"JUNK!!" * 12)[: 72 - 2 * n], "full": b""}[tail]
    field = raw + rest if rest else raw
    boot_sector(w, fh, 0, "mbr", protective(w))
    e = gpt_entry(w, 0, 512, name=field)
    gpt(w, fh, 512, 512, 2, [e], 1, 128)
    fh.seek(0)
    g = must(w, "opening", GPT, fh)
    w.check(len(g.partitions) == 1, "one partition")
    name = g.partitions[0].name
    w.check(len(name) == n, "length of the name")
    for i in range(n):
        w.check(name[i] == w.char(chars[i]), "character of the name")
    w.reach("name")


def h_gpt_blank(w):
    """A name field filled with 0xff is no name."""
    from dissect.volume.disk.schemes import GPT

    fh = w.file("disk", size=SIZE)
    boot_sector(w, fh, 0, "mbr", protective(w))
    e = gpt_entry(w, 0, 512, name=b"\xff" * 72)
    gpt(w, fh, 512, 512, 2, [e], 1, 128)
    fh.seek(0)
    g = must(w, "opening", GPT, fh)
    same_parts(w, g.partitions, [gpt_want(w, 0, e, 512)])
    w.reach("blank name")


def h_gpt_type(w):
    """Any type GUID, in the mixed-endian form of the specification."""
    from dissect.volume.disk.schemes import GPT

    fh = w.file("disk", size=SIZE)
    boot_sector(w, fh, 0, "mbr", protective(w))
    raw = w.bytes("type", 16)
    # away from the (long) table of named types: their names are plain data
    w.assume(raw[15] == 0x5A)
    e = gpt_entry(w, 0, 512, kind=raw)
    gpt(w, fh, 512, 512, 2, [e], 1, 128)
    fh.seek(0)
    g = must(w, "opening", GPT, fh, 512)
    same_parts(w, g.partitions, [gpt_want(w, 0, e, 512)])
    w.reach("type guid")


def h_hybrid(w, slots, ee):
    """Plain entries next to protective ones: both kinds are listed, the GPT once, at its place."""
    from dissect.volume.disk.schemes import GPT

    fh = w.file("disk", size=SIZE)
    plain = {s: entry(w, f"m{s}", 0x83) for s in slots}
    prot = {s: (0, 0xEE, 1 if k == 0 else 5000, MAX32) for k, s in enumerate(ee)}
    boot_sector(w, fh, 0, "mbr", {**plain, **prot})
    lba = w.int("lba", 2, 1 << 40)
    entries = [gpt_entry(w, i, 512) for i in range(2)]
    gpt(w, fh, 512, 512, lba, entries, 2, 128)
    fh.seek(0)
    g = must(w, "opening", GPT, fh, 512)
    want = []
    for s in range(4):
        if s == ee[0]:
            want += [gpt_want(w, i, e, 512) for i, e in enumerate(entries)]
        elif s in plain:
            flag, kind, first, count = plain[s]
            want.append((s + 1, first * 512, count * 512, kind, {"flags": flag, "name": None, "guid": None}))
    same_parts(w, g.partitions, want)
    w.reach("hybrid")


def h_gpt_reject(w):
    from dissect.volume.disk import DiskError
    from dissect.volume.disk.schemes import GPT

    fh = w.file("disk", size=SIZE)
    sig = w.bytes("signature", 8)
    kind = w.int("type", 1, 255)
    for k in EXTENDED:
        w.assume(kind != k)
    boot_sector(w, fh, 0, "mbr", protective(w, ee=kind))
    gpt(w, fh, 512, 512, 2, [gpt_entry(w, 0, 512)], 1, 128, signature=sig)
    fh.seek(0)
    g, err = w.call(GPT, fh, 512)
    ok = w.and_(kind == 0xEE, *(sig[i] == c for i, c in enumerate(b"EFI PART")))
    if w.fork(ok):
        w.check(err is None, "accepted")
        w.reach("gpt accepted")
    else:
        w.check(err is not None and isinstance(err, DiskError), "rejected")
        w.reach("gpt rejected")


def jobs_p14(tier):
    out = []

    def add(fn, name, weight=3, **cfg):
        out.append({"name": name, "fn": fn, "cfg": cfg, "weight": weight})

    for ss in (512, 4096):
        add("h_gpt", f"gpt-{ss}-3", ss=ss, used=[1, 1, 1], esize=128)
        add("h_gpt", f"gpt-{ss}-holes", ss=ss, used=[0, 1, 0, 0, 1], esize=256)
        add("h_gpt", f"gpt-{ss}-0", ss=ss, used=[], esize=128)
        add("h_gpt", f"gpt-{ss}-read", 6, ss=ss, used=[1, 0, 1], esize=128, read=True)
    for n, tail in ((1, "nul"), (5, "junk"), (35, "nul"), (36, "full")):
        add("h_gpt_name", f"name-{n}-{tail}", n=n, tail=tail)
    add("h_gpt_blank", "blank")
    add("h_gpt_type", "type")
    add("h_gpt_reject", "reject")
    for slots, ee in (([0, 1], [2]), ([1, 2], [0]), ([1], [0, 2]), ([0, 3], [1, 2])):
        add("h_hybrid", f"hybrid-{''.join(map(str, slots))}-{''.join(map(str, ee))}", slots=slots, ee=ee)
    if tier == "thorough":
        add("h_gpt", "gpt-512-128", 9, ss=512, used=[i % 3 != 1 for i in range(128)], esize=128)
        add("h_gpt", "gpt-4096-16", 9, ss=4096, used=[i % 4 != 1 for i in range(16)], esize=512, read=True)
    return out


# -- P15 ---------------------------------------------------------------------------------


def name32(w, tag, n):
    raw = w.bytes(tag, n) if n else b""
    for i in range(n):
        w.assume(w.and_(raw[i] > 0, raw[i] < 0x80))
    return (raw + bytes(32 - n) if n < 32 else raw), (raw.decode() if n else "")


def h_apm(w, block, n, driver=True, read=False):
    from dissect.volume.disk.schemes import APM

    fh = w.file("disk", size=SIZE)
    entries, want = [], []
    for i in range(n):
        first, count = w.int(f"a{i}.first", 0, MAX32), w.int(f"a{i}.count", 0, MAX32)
        raw, name = name32(w, f"a{i}.name", (0, 5, 32)[i % 3])
        rkind, kind = name32(w, f"a{i}.type", (9, 32, 0)[i % 3])
        entries.append((first, count, raw, rkind))
        want.append((i + 1, first * block, count * block, kind, {"name": name, "guid": None}))
        if read:
            w.assume(first * block >= (n + 1) * block)
    apm(w, fh, block, block if driver else 0, entries, driver)
    fh.seek(0)
    a = must(w, "opening", APM, fh, *([] if block == 512 and read else [block]))
    same_parts(w, a.partitions, want)
    w.reach(f"apm {block}")
    if read:
        k = w.pick("which", list(range(n)))
        read_part(w, fh, a.partitions[k], want[k][1], want[k][2])


def h_apm_reject(w):
    from dissect.volume.disk import DiskError
    from dissect.volume.disk.schemes import APM

    fh = w.file("disk", size=SIZE)
    sig = w.bytes("signature", 2)
    r = w.region(fh, 0, 512, "first")
    r.put(0, bytes(512))
    r.put(0, sig)
    r.uint(4, 4, 1, "big")
    w.assume(w.not_(w.and_(sig[0] == 0x45, sig[1] == 0x52)))
    fh.seek(0)
    a, err = w.call(APM, fh, 512)
    if w.fork(w.and_(sig[0] == 0x50, sig[1] == 0x4D)):
        w.check(err is None, "accepted")
        w.reach("apm accepted")
    else:
        w.check(err is not None and isinstance(err, DiskError), "rejected")
        w.reach("apm rejected")


def jobs_p15(tier):
    out = []

    def add(fn, name, weight=3, **cfg):
        out.append({"name": name, "fn": fn, "cfg": cfg, "weight": weight})

    for block in (512, 2048):
        add("h_apm", f"apm-{block}-3", block=block, n=3)
        add("h_apm", f"apm-{block}-1", block=block, n=1)
        add("h_apm", f"apm-{block}-read", block=block, n=3, read=True)
    add("h_apm", "apm-512-nodriver", block=512, n=3, driver=False)
    add("h_apm_reject", "reject")
    if tier == "thorough":
        add("h_apm", "apm-512-12", block=512, n=12)
        add("h_apm", "apm-4096-6", block=4096, n=6, read=True)
    return out


# -- P16 ---------------------------------------------------------------------------------

FS = {0: "unused", 1: "swap", 2: "Version 6", 3: "Version 7", 4: "System V", 5: "4.1BSD", 6: "Eighth Edition", 7: "4.2BSD",
      8: "MSDOS", 9: "4.4LFS", 10: "unknown", 11: "HPFS", 12: "ISO9660", 13: "boot", 14: "vinum", 15: "raid", 16: "Filecore",
      17: "EXT2FS", 18: "NTFS", 20: "ccd", 21: "jfs", 22: "HAMMER", 23: "HAMMER2", 24: "UDF", 26: "EFS", 27: "ZFS", 30: "nandfs"}


def bsd32_entries(w, n, kinds, tag="b"):
    return [(w.int(f"{tag}{i}.size", 0, MAX32), w.int(f"{tag}{i}.off", 0, MAX32), kinds[i]) for i in range(n)]


def bsd32_want(w, entries, ss):
    """Listed: in use, not the slot standing for the whole disk, not before the slice."""
    base = entries[2][1] if len(entries) > 2 else 0
    want = []
    for i, (size, off, kind) in enumerate(entries):
        if i != 2 and w.fork(w.and_(size != 0, kind != 0, off >= base)):
            want.append((i + 1, (off - base) * ss, size * ss, kind, {"guid": None, "name": None}))
    return want


def h_bsd32(w, ss, kinds, read=False, blank=False):
    from dissect.volume.disk.schemes import BSD

    fh = w.file("disk", size=SIZE)
    entries = bsd32_entries(w, len(kinds), kinds)
    if blank:
        entries = [e if kinds[i] else (0, 0, 0) for i, e in enumerate(entries)]
    label32(w, fh, ss, entries)
    fh.seek(0)
    b = must(w, "opening", BSD, fh, ss)
    want = bsd32_want(w, entries, ss)
    same_parts(w, b.partitions, want)
    for p in b.partitions:
        w.check(p.type_str == FS[p.type], "name of the file system type")
    w.reach("bsd32")
    if read and want:
        k = w.pick("which", list(range(len(want))))
        w.assume(want[k][1] >= ss + 1024)
        read_part(w, fh, b.partitions[k], want[k][1], want[k][2])


def h_bsd64(w, ss, kinds, read=False, blank=False):
    from dissect.volume.disk.schemes import BSD

    fh = w.file("disk", size=SIZE)
    entries = [(w.int(f"b{i}.size", 0, 1 << 50), w.int(f"b{i}.off", 0, 1 << 50), k, w.bytes(f"b{i}.guid", 16))
               for i, k in enumerate(kinds)]
    if blank:
        entries = [e if e[2] else (0, 0, 0, bytes(16)) for e in entries]
    label64(w, fh, ss, entries)
    fh.seek(0)
    b = must(w, "opening", BSD, fh, ss)
    want = []
    for i, (size, off, kind, guid) in enumerate(entries):
        if i != 2 and w.fork(w.and_(kind != 0, w.or_(size != 0, off != 0))):
            want.append((i + 1, off, size, kind, {"guid": w.uuid(guid, le=True), "name": None}))
    same_parts(w, b.partitions, want)
    w.reach("bsd64")
    if read and want:
        k = w.pick("which", list(range(len(want))))
        w.assume(want[k][1] >= ss + 2048)
        read_part(w, fh, b.partitions[k], want[k][1], want[k][2])


def h_bsd_type(w, bits):
    """Any file system type."""
    from dissect.volume.disk.schemes import BSD

    fh = w.file("disk", size=SIZE)
    kind = w.int("fstype", 0, 255)
    if bits == 32:
        label32(w, fh, 512, [(8, 16, kind)])
    else:
        label64(w, fh, 512, [(8, 16, kind, bytes(16))])
    fh.seek(0)
    b = must(w, "opening", BSD, fh)
    if w.fork(kind == 0):
        w.check(len(b.partitions) == 0, "unused entry")
        w.reach("bsd unused")
        return
    w.check(len(b.partitions) == 1, "one partition")
    p = b.partitions[0]
    w.check(p.type == kind, "type")
    for k, name in FS.items():
        if w.fork(kind == k):
            w.check(p.type_str == name, "name of the file system type")
            break
    else:
        w.check(p.type_str == "?", "name of an unknown file system type")
    w.reach("bsd type")


def h_bsd_reject(w, which):
    from dissect.volume.disk import DiskError
    from dissect.volume.disk.schemes import BSD

    fh = w.file("disk", size=SIZE)
    m = w.int("magic", 0, MAX32)
    label32(w, fh, 512, [], magic=m if which == 1 else 0x82564557, magic2=m if which == 2 else 0x82564557)
    fh.seek(0)
    b, err = w.call(BSD, fh, 512)
    ok = m == 0x82564557
    if which == 1:
        ok = w.or_(ok, m == 0xC4464C59)
    if w.fork(ok):
        w.check(err is None, "accepted")
        w.reach("bsd accepted")
    else:
        w.check(err is not None and isinstance(err, DiskError), "rejected")
        w.reach("bsd rejected")


def jobs_p16(tier):
    out = []

    def add(fn, name, weight=3, **cfg):
        out.append({"name": name, "fn": fn, "cfg": cfg, "weight": weight})

    for ss in (512, 4096):
        add("h_bsd32", f"bsd32-{ss}-5", 6, ss=ss, kinds=[7, 1, 0, 27, 7])
        add("h_bsd32", f"bsd32-{ss}-2", ss=ss, kinds=[7, 1])
        add("h_bsd32", f"bsd32-{ss}-8", 6, ss=ss, kinds=[7, 0, 1, 0, 7, 0, 0, 22])
        add("h_bsd32", f"bsd32-{ss}-read", 6, ss=ss, kinds=[7, 1, 0], read=True)
        add("h_bsd64", f"bsd64-{ss}-4", 6, ss=ss, kinds=[7, 22, 0, 23])
        add("h_bsd64", f"bsd64-{ss}-6", 6, ss=ss, kinds=[7, 0, 7, 0, 0, 23])
        add("h_bsd64", f"bsd64-{ss}-read", 6, ss=ss, kinds=[7, 0, 7, 1], read=True)
    for bits in (32, 64):
        add("h_bsd_type", f"type-{bits}", bits=bits)
    for which in (1, 2):
        add("h_bsd_reject", f"reject-{which}", which=which)
    if tier == "thorough":
        add("h_bsd32", "bsd32-512-20", 9, ss=512, kinds=[7, 1, 0] + [0] * 13 + [7, 0, 22, 27], blank=True)
        add("h_bsd64", "bsd64-512-16", 9, ss=512, kinds=[7, 22, 0] + [0] * 10 + [23, 1, 7], blank=True)
        add("h_bsd32", "bsd32-512-8all", 9, ss=512, kinds=[7] * 8)
    return out


# -- P17 ---------------------------------------------------------------------------------


def h_disk_mbr(w, ss):
    from dissect.volume.disk import Disk
    from dissect.volume.disk.schemes import MBR

    fh = w.file("disk", size=SIZE)
    start = w.int("start", 0, 1 << 40)
    entries = {i: entry(w, f"e{i}", k) for i, k in ((0, 0x07), (2, 0x83))}
    vol = w.int("vol", 0, MAX32)
    boot_sector(w, fh, start, "mbr", entries, vol=vol)
    fh.seek(start)
    d = must(w, "opening", Disk, fh, ss)
    w.check(isinstance(d.scheme, MBR), "an MBR")
    w.check(d.serial == vol, "serial")
    want = [(i + 1, start + first * ss, count * ss, kind, {"flags": flag})
            for i, (flag, kind, first, count) in entries.items()]
    same_parts(w, d.partitions, want)
    w.reach("disk mbr")
    read_part(w, fh, d.partitions[1], want[1][1], want[1][2])


def h_disk_gpt(w, ss, given, hybrid=()):
    """A GPT is found with the right sector size only; with the wrong one nothing is guessed."""
    from dissect.volume.disk import Disk, DiskError
    from dissect.volume.disk.schemes import GPT

    fh = w.file("disk", size=SIZE)
    # a hybrid table has ordinary entries around the protective one
    others = {i: entry(w, f"e{i}", k) for i, k in hybrid}
    slot = next(i for i in range(4) if i not in others)
    boot_sector(w, fh, 0, "mbr", protective(w, slot, others), vol=7)
    lba = w.int("lba", 4, 1 << 40)
    entries = [gpt_entry(w, i, ss) for i in range(2)]
    gpt(w, fh, ss, ss, lba, entries, 2, 128)
    if given != ss:
        # the sector in which the header is looked for holds something else
        r = w.region(fh, given, 512, "other")
        r.put(0, bytes(512))
        r.put(0, w.pick("there", [b"", b"EFI PARS", b"PM"]))
    fh.seek(0)
    d, err = w.call(Disk, fh, given)
    if given == ss:
        if err is not None:
            w.fail(f"opening raised {type(err).__name__}: {err}")
        w.check(isinstance(d.scheme, GPT), "a GPT")
        w.check(d.serial is None, "no serial")
        want = []
        for i in range(4):
            if i == slot:
                want += [gpt_want(w, k, e, ss) for k, e in enumerate(entries)]
            elif i in others:
                flag, kind, first, count = others[i]
                want.append((i + 1, first * ss, count * ss, kind, {"flags": flag}))
        same_parts(w, d.partitions, want)
        w.reach("disk gpt")
    else:
        w.check(err is not None and isinstance(err, DiskError), "wrong sector size")
        w.reach("disk gpt wrong sector size")


def h_disk_apm(w):
    from dissect.volume.disk import Disk
    from dissect.volume.disk.schemes import APM

    fh = w.file("disk", size=SIZE)
    entries = [(w.int(f"a{i}.first", 0, MAX32), w.int(f"a{i}.count", 0, MAX32), b"n".ljust(32, b"\x00"), b"Apple_HFS".ljust(32, b"\x00"))
               for i in range(2)]
    apm(w, fh, 512, 512, entries)
    fh.seek(0)
    d = must(w, "opening", Disk, fh)
    w.check(isinstance(d.scheme, APM), "an APM")
    w.check(d.serial is None, "no serial")
    same_parts(w, d.partitions, [(i + 1, a * 512, b * 512, "Apple_HFS", {"name": "n"}) for i, (a, b, _, _) in enumerate(entries)])
    w.reach("disk apm")


def h_disk_bsd(w):
    from dissect.volume.disk import Disk
    from dissect.volume.disk.schemes import BSD

    fh = w.file("disk", size=SIZE)
    r = w.region(fh, 0, 512, "boot")
    r.put(0, bytes(512))
    if w.pick("file system boot sector", [False, True]):
        r.put(3, b"NTFS    ")
        r.uint(510, 2, 0xAA55)
    entries = bsd32_entries(w, 4, [7, 1, 0, 7])
    label32(w, fh, 512, entries)
    fh.seek(0)
    d = must(w, "opening", Disk, fh)
    w.check(isinstance(d.scheme, BSD), "a BSD label")
    same_parts(w, d.partitions, bsd32_want(w, entries, 512))
    w.reach("disk bsd")


def h_disk_none(w):
    from dissect.volume.disk import Disk, DiskError

    size = w.pick("size", [0, 100, 511, 512, 1023, 4096])
    fh = w.file("disk", size=size)
    if size >= 512:
        r = w.region(fh, 0, 512, "first")
        r.put(0, bytes(512))
        r.put(0, w.pick("signature", [b"", b"PN", b"RE", b"EFI PART"]))
        r.uint(510, 2, w.pick("bootsig", [0, 0x55AA]))
    if size > 512:
        r = w.region(fh, 512, size - 512, "second")
        r.put(0, bytes(size - 512))
    fh.seek(0)
    d, err = w.call(Disk, fh)
    w.check(err is not None and isinstance(err, DiskError), "no partition table")
    w.reach("disk none")


def h_nested(w, outer, slot, ss=512, label=True, bits=32):
    """The partitions of a BSD slice take the place of the slice; a slice without a label stays."""
    from dissect.volume.disk import Disk

    fh = w.file("disk", size=SIZE)
    want, slice_ = [], None
    if outer == "mbr":
        entries = {i: entry(w, f"e{i}", w.pick("slice type", BSD_TYPES) if i == slot else 0x83, lo=16) for i in range(3)}
        boot_sector(w, fh, 0, "mbr", entries)
        for i, (flag, kind, first, count) in entries.items():
            want.append((i + 1, first * ss, count * ss, kind, {"flags": flag}))
    else:
        boot_sector(w, fh, 0, "mbr", protective(w))
        entries = [gpt_entry(w, i, ss, kind=w.pick("slice type", BSD_GUIDS) if i == slot else LINUX) for i in range(3)]
        gpt(w, fh, ss, ss, 2, entries, 3, 128)
        for i, e in enumerate(entries):
            w.assume(e[2] >= 16)
            want.append(gpt_want(w, i, e, ss))
    base = want[slot][1]
    size = want[slot][2] if outer == "mbr" else want[slot][2][2]
    w.assume(size >= 16 * ss)
    if label and bits == 32:
        inner = bsd32_entries(w, 4, [7, 1, 0, 7])
        label32(w, fh, base + ss, inner)
        got = bsd32_want(w, inner, ss)
    elif label:
        inner = [(w.int(f"b{i}.size", 1, 1 << 50), w.int(f"b{i}.off", 0, 1 << 50), 7, bytes([i]) * 16) for i in range(2)]
        label64(w, fh, base + ss, inner)
        got = [(i + 1, off, n, 7, {}) for i, (n, off, _, _) in enumerate(inner)]
    else:
        r = w.region(fh, base + ss, 512, "no label")
        r.put(0, bytes(512))
        r.uint(0, 4, w.pick("magic", [0, 0x82564558, 0x57455682]))
        got = [want[slot]]
    want[slot : slot + 1] = got
    fh.seek(0)
    d = must(w, "opening", Disk, fh, ss)
    same_parts(w, d.partitions, want)
    w.reach("nested" if label else "slice without a label")
    if label and got:
        k = slot + len(got) - 1
        off, n = want[k][1], want[k][2]
        w.assume(off >= ss + 4096)
        fh.seek(w.int("havoc", 0, 1 << 40))
        s = must(w, "open", d.partitions[k].open)
        fh.seek(w.int("havoc2", 0, 1 << 40))
        pos, length = w.int("pos", 0, 1 << 50), w.int("len", 1, 1500)
        # the slice bounds what can be read
        w.assume(w.and_(pos + length <= n, off + pos + length <= size))
        read_at(w, s, None, lambda a: ("at", fh, base + off + a), "read", 1500, pos=pos, length=length)
        w.reach("nested read")


def jobs_p17(tier):
    out = []

    def add(fn, name, weight=3, **cfg):
        out.append({"name": name, "fn": fn, "cfg": cfg, "weight": weight})

    for ss in (512, 4096):
        add("h_disk_mbr", f"mbr-{ss}", ss=ss)
        for given in (512, 4096):
            add("h_disk_gpt", f"gpt-{ss}-{given}", ss=ss, given=given)
            for hybrid in ([(1, 0x07)], [(0, 0x83)], [(0, 0xAF), (1, 0x07), (3, 0x0C)], [(0, 0x83), (1, 0x83), (2, 0x83)]):
                name = f"hybrid-{ss}-{given}-" + "".join(str(i) for i, _ in hybrid)
                add("h_disk_gpt", name, ss=ss, given=given, hybrid=hybrid)
    add("h_disk_apm", "apm")
    add("h_disk_bsd", "bsd")
    add("h_disk_none", "none")
    for outer in ("mbr", "gpt"):
        for slot in (0, 1, 2):
            add("h_nested", f"nested-{outer}-{slot}", 9, outer=outer, slot=slot)
        add("h_nested", f"nested-{outer}-64", 9, outer=outer, slot=1, bits=64)
        add("h_nested", f"nested-{outer}-none", 9, outer=outer, slot=1, label=False)
    if tier == "thorough":
        for outer in ("mbr", "gpt"):
            add("h_nested", f"nested-{outer}-4k", 9, outer=outer, slot=1, ss=4096)
            add("h_nested", f"nested-{outer}-4k-64", 9, outer=outer, slot=0, ss=4096, bits=64)
    return out


PROPERTIES = {
    "P13": {
        "jobs": jobs_p13,
        "must_reach": ["primary", "unused", "any type", "chain", "logical read", "two extended", "read-compared", "read-clipped-at-end"]
        + [f"{a} {b}" for a in ("rejected", "accepted") for b in ("signature", "oem", "qnx1", "qnx2")],
        "bounds": (
            "tables of 4 slots with free flags, first sectors and sector counts (1..2^32-1), at any position of the source "
            "up to 2^40; every type byte; sector sizes 512 and 4096 (thorough: 2048); an extended partition in each slot "
            "with a chain of up to 3 (thorough: 7) sectors at free, distinct positions, holes in the chain, primaries "
            "before and behind it; two extended partitions; reads of 1..1500 bytes at any position; free boot signature, "
            "OEM field and QNX marks"
        ),
        "outside": (
            "chains that loop or overlap other sectors, numbers of the logical partitions of a second extended partition, "
            "the boot signature of chained sectors (not looked at), CHS addresses"
        ),
    },
    "P14": {
        "jobs": jobs_p14,
        "must_reach": ["gpt", "name", "blank name", "type guid", "hybrid", "gpt accepted", "gpt rejected", "read-compared"],
        "bounds": (
            "up to 5 entries (thorough: 128) of 128, 256 (512) bytes at a free LBA, sector sizes 512 and 4096, free GUIDs, "
            "LBAs up to 2^40, flags; names of 1, 5, 35 and 36 free UTF-16 units, with text behind the NUL; 1 or 2 "
            "protective entries among plain ones; any header signature and any type of the protective entry; reads of "
            "1..1500 bytes within the partition"
        ),
        "outside": (
            "surrogate pairs in names, entries with a zero type GUID but a nonzero first LBA, a disk not starting at "
            "position 0, the backup header, checksums"
        ),
    },
    "P15": {
        "jobs": jobs_p15,
        "must_reach": ["apm 512", "apm 2048", "apm accepted", "apm rejected", "read-compared"],
        "bounds": (
            "maps of 1 and 3 (thorough: 12) entries of 512 and 2048 (4096) byte blocks, with or without driver descriptor, "
            "free start, size, names and types of 0, 5, 9 and 32 ASCII characters; any signature; reads of 1..1500 bytes"
        ),
        "outside": (
            "a sector size given by the caller that differs from the block size in the driver descriptor, non-ASCII names, "
            "a disk not starting at position 0"
        ),
    },
    "P16": {
        "jobs": jobs_p16,
        "must_reach": ["bsd32", "bsd64", "bsd unused", "bsd type", "bsd accepted", "bsd rejected", "read-compared"],
        "bounds": (
            "32-bit labels of 0..8 (thorough: 20) slots and 64-bit labels of 0..6 (16) slots at sector sizes 512 and 4096; "
            "free sizes and offsets in every slot including the one of the whole disk, every file system type in one slot "
            "and five types combined; any magic; reads of 1..1500 bytes"
        ),
        "outside": (
            "checksums, a sector size in the label differing from the one given by the caller"
        ),
    },
    "P17": {
        "jobs": jobs_p17,
        "must_reach": ["disk mbr", "disk gpt", "disk gpt wrong sector size", "disk apm", "disk bsd", "disk none", "nested",
                       "slice without a label", "nested read"],
        "bounds": (
            "MBR at any position, GPT at both sector sizes opened with either, with 0-3 ordinary entries around the protective one, APM, standalone BSD label, sectors that are "
            "none of them, sources shorter than a sector; a BSD slice of each of the seven types in each of 3 slots of an "
            "MBR or GPT, holding a 32-bit label with 4 free slots, a 64-bit label with 2, or none; reads of 1..1500 bytes "
            "within the inner partition"
        ),
        "outside": (
            "several BSD slices on one disk, BSD slices within extended partitions"
        ),
    },
}
