"""Linux MD: superblock discovery and decoding, assembly of arrays."""

from __future__ import annotations

from checks.common import must, read_at
from checks.raid import parity_oracle, raid10_oracle

MAGIC = 0xA92B4EFC


def uuid_raw(w, tag, twin=None):
    """Two free bytes, the rest fixed."""
    return w.bytes(f"{tag}.uuid", 2) + bytes(range(0x40, 0x4E))


def super1(w, r, *, uuid, level, layout, size, chunk, raid_disks, data_offset, data_size, dev_number, roles, events,
           name=b"", ctime=0, utime=0, dev_uuid=b"\x00" * 16, magic=MAGIC, major=1):
    """A version 1 superblock written into a region."""
    r.uint(0, 4, magic)
    r.uint(4, 4, major)
    r.put(8, b"\x00" * 8)
    r.put(16, uuid)
    r.put(32, name)
    if len(name) < 32:
        r.put(32 + len(name), b"\x00" * (32 - len(name)))
    r.uint(64, 8, ctime)
    r.uint(72, 4, level % (1 << 32) if isinstance(level, int) else level)
    r.uint(76, 4, layout)
    r.uint(80, 8, size)
    r.uint(88, 4, chunk)
    r.uint(92, 4, raid_disks)
    r.uint(128, 8, data_offset)
    r.uint(136, 8, data_size)
    r.uint(160, 4, dev_number)
    r.put(168, dev_uuid)
    r.uint(192, 8, utime)
    r.uint(200, 8, events)
    r.uint(220, 4, len(roles))
    for i, role in enumerate(roles):
        r.uint(256 + 2 * i, 2, role)


def super0(w, r, *, uuid, level, layout, size, chunk, raid_disks, number, raid_disk, events_lo, events_hi, ctime=0, utime=0,
           minor=90):
    """A version 0.90 superblock written into a region."""
    r.uint(0, 4, MAGIC)
    r.uint(4, 4, 0)
    r.uint(8, 4, minor)
    r.put(20, uuid[:4])
    r.uint(24, 4, ctime)
    r.uint(28, 4, level % (1 << 32) if isinstance(level, int) else level)
    r.uint(32, 4, size)
    r.uint(40, 4, raid_disks)
    r.put(52, uuid[4:16])
    r.uint(128, 4, utime)
    r.uint(156, 4, events_lo)
    r.uint(160, 4, events_hi)
    r.uint(256, 4, layout)
    r.uint(260, 4, chunk)
    d = 512 + number * 128
    r.uint(d, 4, number)
    r.uint(d + 12, 4, raid_disk)
    r.uint(3968, 4, number)
    r.uint(3968 + 12, 4, raid_disk)


def place(version, sectors):
    """Sector of the superblock, by metadata version."""
    if version == "0.90":
        return sectors // 128 * 128 - 128
    if version == "1.0":
        return (sectors - 16) // 8 * 8
    return 0 if version == "1.1" else 8


def device(w, name, lo_sectors=512):
    """A zero-filled device of any size."""
    size = w.mixed(f"{name}.size", [(512, False), (8, False), (16, False)], 1 << 50)
    sectors = size // 512
    w.assume(sectors >= lo_sectors)
    return w.file(name, size=size, fill=0), size, sectors


# -- P08: one device ---------------------------------------------------------------------


def h_super1(w, version):
    from dissect.volume.md.md import MDPhysicalDisk

    fh, size, sectors = device(w, "dev", 24)
    sb = place(version, sectors)
    how = w.pick("size known by", ["seek", "attribute", "attribute none"])
    if how != "seek":
        fh.size = size if how == "attribute" else None
    r = w.region(fh, sb * 512, 264, "sb")
    nroles = w.pick("max_dev", [1, 2, 4])
    dev_number = w.int(f"dev_number{nroles}", 0, nroles - 1)
    roles = [w.int(f"role{i}", 0, 0xFFFF) for i in range(nroles)]
    uuid, dev_uuid = w.bytes("set_uuid", 16), w.bytes("dev_uuid", 16)
    k = w.pick("name length", [0, 3, 32])
    name = w.bytes("name", k)
    for i in range(k):
        w.assume(w.and_(name[i] > 0x20, name[i] < 0x7F))
    sec, us, usec, uus = (w.int(n, 0, hi) for n, hi in (("ct", 1 << 35), ("cus", 999999), ("ut", 1 << 35), ("uus", 999999)))
    f = dict(level=w.pick("level", [-1, w.int("level+", 0, 10)]), layout=w.int("layout", 0, 1 << 31), size=w.int("csize", 0, 1 << 50),
             chunk=w.int("chunk", 0, 1 << 20), raid_disks=w.int("raid_disks", 1, 400), data_offset=w.int("data_offset", 0, 1 << 50),
             data_size=w.int("data_size", 0, 1 << 50), events=w.int("events", 0, (1 << 64) - 1))
    if isinstance(f["level"], int) and f["level"] == -1:
        w.assume(f["chunk"] == 0)
    super1(w, r, uuid=uuid, dev_uuid=dev_uuid, name=name, dev_number=dev_number, roles=roles,
           ctime=sec + us * (1 << 40), utime=usec + uus * (1 << 40), **f)
    fh.seek(w.int("havoc", 0, 1 << 40))
    d = must(w, "opening a member", MDPhysicalDisk, fh)
    role = roles[w.concrete(dev_number)]
    for attr, want in (("level", f["level"]), ("layout", f["layout"]), ("raid_disks", f["raid_disks"]), ("events", f["events"]),
                       ("chunk_size", f["chunk"] * 512), ("offset", f["data_offset"] * 512), ("size", f["data_size"] * 512),
                       ("dev_number", dev_number), ("set_name", name.decode()), ("set_uuid", w.uuid(uuid, le=True)),
                       ("device_uuid", w.uuid(dev_uuid, le=True)), ("creation_time", w.time(sec * 1000000 + us)),
                       ("update_time", w.time(usec * 1000000 + uus))):
        w.check(getattr(d, attr) == want, attr)
    if w.fork(role <= 0xFF00):
        w.check(d.raid_disk == role if d.raid_disk is not None else False, "slot of an active member")
        w.reach("active")
    elif w.fork(w.or_(role == 0xFFFF, role == 0xFFFE, role == 0xFFFD)):
        w.check(d.raid_disk is None, "spare, faulty and journal members have no slot")
        w.reach("not active")
    w.observe("offset", d.offset)
    w.observe("raid_disk", d.raid_disk)
    w.observe("events", d.events)


def h_super0(w):
    from dissect.volume.md.md import MDPhysicalDisk

    fh, size, sectors = device(w, "dev", 256)
    sb = place("0.90", sectors)
    r = w.region(fh, sb * 512, 4096, "sb")
    uuid = w.bytes("set_uuid", 16)
    number = w.pick("number", [0, 1, 5, 26])
    f = dict(level=w.pick("level", [-1, w.int("level+", 0, 10)]), layout=w.int("layout", 0, 1 << 31), size=w.int("csize", 0, 1 << 31),
             chunk=w.int("chunk", 0, 1 << 10) * 512, raid_disks=w.int("raid_disks", 1, 27), raid_disk=w.int("raid_disk", 0, 26),
             events_lo=w.int("elo", 0, (1 << 32) - 1), events_hi=w.int("ehi", 0, (1 << 32) - 1),
             ctime=w.int("ct", 0, (1 << 32) - 1), utime=w.int("ut", 0, (1 << 32) - 1))
    if isinstance(f["level"], int) and f["level"] == -1:
        w.assume(f["chunk"] == 0)
    super0(w, r, uuid=uuid, number=number, **f)
    fh.seek(w.int("havoc", 0, 1 << 40))
    d = must(w, "opening a member", MDPhysicalDisk, fh)
    for attr, want in (("level", f["level"]), ("layout", f["layout"]), ("raid_disks", f["raid_disks"]),
                       ("events", f["events_hi"] * (1 << 32) + f["events_lo"]), ("chunk_size", f["chunk"]), ("offset", 0),
                       ("size", sb * 512), ("dev_number", number), ("raid_disk", f["raid_disk"]), ("set_name", None),
                       ("set_uuid", w.uuid(uuid, le=True)), ("creation_time", w.time(f["ctime"] * 1000000)),
                       ("update_time", w.time(f["utime"] * 1000000))):
        got = getattr(d, attr)
        w.check(got is None if want is None else (got == want if got is not None else False), attr)
    w.reach("0.90")
    w.observe("size", d.size)
    w.observe("events", d.events)


def h_no_super(w, version):
    """Nothing that merely resembles a superblock is taken for one."""
    from dissect.volume.md.md import MDPhysicalDisk

    fh, size, sectors = device(w, "dev", 24 if version != "0.90" else 256)
    sb = place(version, sectors)
    r = w.region(fh, sb * 512, 512, "sb")
    magic = w.int("magic", 0, (1 << 32) - 1)
    w.assume(magic != MAGIC)
    r.uint(0, 4, magic)
    r.uint(4, 4, 0 if version == "0.90" else 1)
    got, err = w.call(MDPhysicalDisk, fh)
    w.check(err is not None and isinstance(err, ValueError), "rejected with ValueError")
    w.reach("rejected")


def h_misplaced(w):
    """A superblock anywhere but at its prescribed sectors is not picked up."""
    from dissect.volume.md.md import MDPhysicalDisk

    fh, size, sectors = device(w, "dev", 256)
    at = w.int("at", 0, 1 << 41)
    w.assume(at < sectors - 8)
    for v in ("0.90", "1.0", "1.1", "1.2"):
        w.assume(at != place(v, sectors))
    r = w.region(fh, at * 512, 512, "sb")
    super1(w, r, uuid=bytes(16), level=1, layout=0, size=1, chunk=0, raid_disks=2, data_offset=16, data_size=1, dev_number=0,
           roles=[0], events=1)
    got, err = w.call(MDPhysicalDisk, fh)
    w.check(err is not None and isinstance(err, ValueError), "rejected with ValueError")
    w.reach("misplaced rejected")


def h_version(w):
    """Superblocks of other major versions are not understood."""
    from dissect.volume.md.md import MDPhysicalDisk

    fh, size, sectors = device(w, "dev", 256)
    version = w.pick("version", ["0.90", "1.0", "1.1", "1.2"])
    major = w.int("major", 2, (1 << 32) - 1)
    r = w.region(fh, place(version, sectors) * 512, 4096 if version != "1.0" else 1024, "sb")
    r.uint(0, 4, MAGIC)
    r.uint(4, 4, major)
    got, err = w.call(MDPhysicalDisk, fh)
    w.check(err is not None and isinstance(err, ValueError), "rejected with ValueError")
    w.reach("other version")


def jobs_p08(tier):
    out = [{"name": f"super-{v}", "fn": "h_super1", "weight": 9, "cfg": {"version": v}} for v in ("1.0", "1.1", "1.2")]
    out.append({"name": "super-0.90", "fn": "h_super0", "weight": 9, "cfg": {}})
    out += [{"name": f"no-super-{v}", "fn": "h_no_super", "cfg": {"version": v}} for v in ("0.90", "1.0", "1.1", "1.2")]
    out.append({"name": "misplaced", "fn": "h_misplaced", "cfg": {}})
    out.append({"name": "other-version", "fn": "h_version", "cfg": {}})
    return out


# -- P09: assembly -----------------------------------------------------------------------


def array(w, tag, n, version, *, level, layout, chunk, raid_disks=None, roles=None, component=None, uuid=None, big=True):
    """``n`` devices carrying the superblocks of one array; returns per-slot (file, data start, data size)."""
    uuid = uuid if uuid is not None else uuid_raw(w, tag)
    info, files = {}, []
    # the order of update counts and the order of devices multiply; large sets keep one fixed
    events = [w.int(f"{tag}{i}.events", 0, (1 << 64) - 1) if n < 4 else 7 for i in range(n)]
    for i in range(n):
        role = roles[i] if roles else i
        name = f"{tag}{i}"
        if version == "0.90":
            # device sizes of whole 64 KiB units keep the superblock position linear
            units = w.int(f"{name}.units", 64, 1 << 30)
            fh = w.file(name, size=units * 65536)
            r = w.region(fh, (units - 1) * 65536, 4096, "sb")
            start, size = 0, (units - 1) * 65536
            lo, hi = w.int(f"{name}.elo", 0, (1 << 32) - 1), w.int(f"{name}.ehi", 0, (1 << 32) - 1)
            super0(w, r, uuid=uuid, level=level, layout=layout, size=component, chunk=chunk, raid_disks=raid_disks or n,
                   number=i, raid_disk=role, events_lo=lo, events_hi=hi)
        else:
            fh = w.file(name, size=1 << 60)
            doff = w.int(f"{name}.doff", 24, 1 << 30)
            dsize = w.int(f"{name}.dsize", 1 << 12, 1 << 40)
            r = w.region(fh, 4096, 512, "sb")
            # nothing else on the device looks like a superblock
            for k, at in enumerate((0, (((1 << 60) // 512) // 128 * 128 - 128) * 512, (1 << 60) - 8192)):
                w.region(fh, at, 12, f"blank{k}").put(0, b"\x00" * 12)
            start, size = doff * 512, dsize * 512
            super1(w, r, uuid=uuid, level=level, layout=layout, size=component, chunk=chunk // 512, raid_disks=raid_disks or n,
                   data_offset=doff, data_size=dsize, dev_number=i, roles=[(roles[k] if roles else k) for k in range(n)],
                   events=events[i], name=b"host:" + tag.encode())
        files.append(fh)
        info[role] = (fh, start, size)
    return files, info, uuid


def order_of(w, files):
    """The order in which the devices are handed over does not matter."""
    n = len(files)
    k = w.pick("order", list(range(2 * n)) if 1 < n < 4 else [0, n + 1] if n > 1 else [0])
    rot = files[k % n:] + files[: k % n]
    return rot[::-1] if k >= n else rot


def open_array(w, files):
    from dissect.volume.md.md import MD, MDPhysicalDisk

    given = order_of(w, files)
    if len(files) == 1:
        # a single device need not be in a list, and devices can be opened before
        form = w.pick("form", ["list", "bare", "disk"])
        if form != "list":
            given = files[0] if form == "bare" else must(w, "opening", MDPhysicalDisk, files[0])
    md = must(w, "assembling", MD, given)
    w.check(len(md.configurations) == 1, "one set")
    vds = md.configurations[0].virtual_disks
    w.check(len(vds) == 1, "one array")
    w.check(len(md.configurations[0].physical_disks) == len(files), "all devices belong to it")
    return vds[0]


def h_assemble(w, level, layout, n, chunk, version="1.2", spares=()):
    """The array found on a set of devices reads the way its superblocks say."""
    component = w.int("component", 1, 1 << 36)
    roles = list(range(n)) + list(spares)
    files, info, uuid = array(w, "m", len(roles), version, level=level, layout=layout, chunk=chunk, raid_disks=n, roles=roles,
                              component=component)
    vd = open_array(w, files)
    w.check(vd.level == level, "level")
    w.check(vd.layout == layout, "layout")
    w.check(vd.stripe_size == chunk, "stripe size")
    w.check(vd.num_disks == n, "number of members")
    w.check(vd.uuid == w.uuid_text(uuid, le=True), "identity")
    w.check(vd.name == (None if version == "0.90" else "host:m"), "name")
    unit = 1024 if version == "0.90" else 512
    data = {-1: n, 0: n, 1: 1, 4: n - 1, 5: n - 1, 6: n - 2}.get(level)
    where = {k: (f, start) for k, (f, start, _) in info.items()}
    known = None
    if level == -1:
        total = 0
        for k in range(n):
            total = total + info[k][2]
        radices = None
    elif level == 0:
        total = 0
        for k in range(n):
            total = total + info[k][2] // chunk * chunk
    else:
        copies = (layout & 0xFF) * ((layout >> 8) & 0xFF)
        for k in range(n):
            w.assume(component * unit <= info[k][2])
        if level == 1:
            total = component * unit
        else:
            w.assume(component % (chunk // unit) == 0)
            total = component * unit * data if level != 10 else component * unit // chunk * n // copies * chunk
        # recorded finding: the size of one member's component is reported as the size of the array
        known = ("K-P09-kib" if level == 1 else "K-P09-component-size", vd.size == component * 512)
    w.check(vd.size == total, "size of the array", known=known if level > 1 or (level == 1 and version == "0.90") else None)
    w.reach(f"level{level}")
    w.observe("size", vd.size)
    fh = must(w, "open", vd.open)
    for f in files:
        f.seek(w.int("havoc", 0, 1 << 40))
    size = vd.size
    if level == -1:
        pos = w.int("pos", 0, 1 << 60)

        def at(a):
            base = 0
            for k in range(n - 1):
                f, start, sz = info[k]
                if w.fork(a < base + sz):
                    return ("at", f, start + a - base)
                base = base + sz
            f, start, sz = info[n - 1]
            return ("at", f, start + a - base)
    elif level == 0:
        small = info[0][2] // chunk
        for k in range(1, n):
            w.assume(info[k][2] // chunk == small)
        pos = w.mixed("pos", [(chunk, False), (n, True)], 1 << 58)

        def at(a):
            f, start = where[w.concrete((a // chunk) % n)]
            return ("at", f, start + (a // chunk) // n * chunk + a % chunk)
    elif level == 1:
        pos = w.int("pos", 0, 1 << 58)

        def at(a):
            return ("any", [("at", f, start + a) for f, start in where.values()])
    elif level == 10:
        at, radices = raid10_oracle(w, n, layout, chunk, where)
        pos = w.mixed("pos", radices, 1 << 58)
    else:
        at, radices = parity_oracle(w, level, layout, n, chunk, where)
        pos = w.mixed("pos", radices, 1 << 58)
    length = w.int("len", 1, 600)
    w.assume(pos + length <= size)
    read_at(w, fh, None, at, "read", 600, pos=pos, length=length)


def h_two_sets(w):
    """Devices of different arrays are never mixed."""
    from dissect.volume.md.md import MD

    ua, ub = uuid_raw(w, "a"), uuid_raw(w, "b")
    fa, ia, _ = array(w, "a", 2, "1.2", level=1, layout=0, chunk=0, component=100, uuid=ua)
    fb, ib, _ = array(w, "b", 2, "1.2", level=0, layout=0, chunk=65536, component=0, uuid=ub)
    same = w.fork(ua == ub)
    if same:
        return
    files = w.pick("interleaving", [fa + fb, fb + fa, [fa[0], fb[0], fa[1], fb[1]], [fb[1], fa[1], fa[0], fb[0]]])
    md = must(w, "assembling", MD, files)
    w.check(len(md.configurations) == 2, "two sets")
    for conf in md.configurations:
        vd = conf.virtual_disks[0]
        mine = fa if w.fork(vd.uuid == w.uuid_text(ua, le=True)) else fb
        w.check(vd.uuid == w.uuid_text(ua if mine is fa else ub, le=True), "identity")
        w.check(vd.level == (1 if mine is fa else 0), "level")
        w.check(len(conf.physical_disks) == 2 and all(any(d.fh is f for f in mine) for d in conf.physical_disks), "members")
        w.check(len(vd.disk_map) >= 1 and all(vd.disk_map[i][1].fh is mine[i] for i in vd.disk_map), "slots")
    w.reach("two sets")


def h_one_configuration(w):
    """A configuration is not made from the devices of several sets."""
    from dissect.volume.md.md import MDConfiguration, MDPhysicalDisk

    ua, ub = uuid_raw(w, "a"), uuid_raw(w, "b")
    w.assume(w.not_(ua == ub))
    fa, _, _ = array(w, "a", 1, "1.2", level=1, layout=0, chunk=0, component=100, uuid=ua, raid_disks=2)
    fb, _, _ = array(w, "b", 1, "1.2", level=1, layout=0, chunk=0, component=100, uuid=ub, raid_disks=2)
    disks = [must(w, "opening", MDPhysicalDisk, f) for f in w.pick("order", [fa + fb, fb + fa])]
    _, err = w.call(MDConfiguration, disks)
    w.check(err is not None and isinstance(err, ValueError), "refused")
    w.reach("sets kept apart")


def member(w, name, uuid, level, slot, number, n, chunk, ev, roles, size=1 << 40):
    fh = w.file(name, size=1 << 60)
    doff = w.int(f"{name}.doff", 24, 1 << 30)
    for k, at in enumerate((0, (((1 << 60) // 512) // 128 * 128 - 128) * 512, (1 << 60) - 8192)):
        w.region(fh, at, 12, f"blank{k}").put(0, b"\x00" * 12)
    super1(w, w.region(fh, 4096, 512, "sb"), uuid=uuid, level=level, layout=2, size=size, chunk=chunk // 512, raid_disks=n,
           data_offset=doff, data_size=size, dev_number=number, roles=roles, events=ev, name=b"host:m")
    return fh, doff * 512


def h_replaced(w, level, n, slot, chunk=65536):
    """Two devices claim one slot: the one that was updated last has it."""
    from dissect.volume.md.md import MD

    uuid, where, files = uuid_raw(w, "m"), {}, []
    old, new = w.int("old", 0, (1 << 64) - 2), w.int("new", 1, (1 << 64) - 1)
    w.assume(old + 1 < new)
    for i in range(n):
        files.append(member(w, f"m{i}", uuid, level, i, i, n, chunk, new, list(range(n))))
        where[i] = files[-1]
    # on the device that was replaced, the table is the one of its time
    files.append(member(w, "gone", uuid, level, slot, n, n, chunk, old, [*(k if k != slot else 0xFFFE for k in range(n)), slot]))
    md = must(w, "assembling", MD, [f for f, _ in order_of(w, files)])
    w.check(len(md.configurations) == 1 and len(md.configurations[0].physical_disks) == n + 1, "all devices belong to the set")
    vd = md.configurations[0].virtual_disks[0]
    fh = must(w, "open", vd.open)
    if level == 1:
        pos = w.int("pos", 0, 1 << 40)

        def at(a):
            return ("any", [("at", f, start + a) for f, start in where.values()])
    elif level == 0:
        pos = w.mixed("pos", [(chunk, False), (n, True)], 1 << 40)

        def at(a):
            f, start = where[w.concrete((a // chunk) % n)]
            return ("at", f, start + (a // chunk) // n * chunk + a % chunk)
    else:
        at, radices = parity_oracle(w, level, 2, n, chunk, where)
        pos = w.mixed("pos", radices, 1 << 40)
    length = w.int("len", 1, 600)
    read_at(w, fh, None, at, "read", 600, pos=pos, length=length)
    w.reach("replaced")


def h_behind(w, n):
    """A mirror is not read from a member that fell behind."""
    from dissect.volume.md.md import MD

    uuid, events, files = uuid_raw(w, "m"), [], []
    for i in range(n):
        events.append(w.int(f"ev{i}", 0, (1 << 64) - 1))
        files.append(member(w, f"m{i}", uuid, 1, i, i, n, 0, events[i], list(range(n))))
    md = must(w, "assembling", MD, [f for f, _ in order_of(w, files)])
    vd = md.configurations[0].virtual_disks[0]
    fh = must(w, "open", vd.open)
    top = events[0]
    for e in events[1:]:
        top = w.ite(e > top, e, top)
    fresh = [files[i] for i in range(n) if w.fork(events[i] + 1 >= top)]
    pos, length = w.int("pos", 0, 1 << 40), w.int("len", 1, 600)
    read_at(w, fh, None, lambda a: ("any", [("at", f, start + a) for f, start in fresh]), "read", 600, pos=pos, length=length)
    w.reach("all fresh" if len(fresh) == n else "fell behind")


def h_reference(w):
    """Geometry comes from the member whose superblock was updated last."""
    from dissect.volume.md.md import MD

    files, vals = [], []
    uuid = uuid_raw(w, "m")
    for i in range(3):
        fh = w.file(f"m{i}", size=1 << 30, fill=0)
        r = w.region(fh, 4096, 512, "sb")
        ev = w.int(f"ev{i}", 0, (1 << 64) - 1)
        disks, layout, size = w.int(f"disks{i}", 3, 300), w.int(f"layout{i}", 0, 5), w.int(f"size{i}", 1, 1 << 30)
        super1(w, r, uuid=uuid, level=5, layout=layout, size=size, chunk=128, raid_disks=disks, data_offset=256, data_size=size,
               dev_number=i, roles=[0, 1, 2], events=ev, name=b"n%d" % i)
        files.append(fh)
        vals.append((ev, disks, layout))
    for i in range(3):
        for j in range(i):
            w.assume(vals[i][0] != vals[j][0])
    md = must(w, "assembling", MD, order_of(w, files))
    vd = md.configurations[0].virtual_disks[0]
    for i in range(3):
        newest = w.and_(*(vals[i][0] >= vals[j][0] for j in range(3)))
        if w.fork(newest):
            w.check(vd.num_disks == vals[i][1], "member count of the newest superblock")
            w.check(vd.layout == vals[i][2], "layout of the newest superblock")
            w.check(vd.name == f"n{i}", "name of the newest superblock")
            w.reach("newest")
            w.observe("disks", vd.num_disks)
            break


def jobs_p09(tier):
    out = []

    def add(level, layout, n, chunk, version="1.2", spares=()):
        out.append({"name": f"level{level}-layout{layout:#x}-n{n}-c{chunk}-v{version}{'-spare' if spares else ''}",
                    "fn": "h_assemble", "weight": n,
                    "cfg": {"level": level, "layout": layout, "n": n, "chunk": chunk, "version": version, "spares": list(spares)}})

    add(-1, 0, 2, 0)
    add(-1, 0, 3, 0)
    add(0, 2, 2, 65536)
    add(0, 0, 3, 4096)
    add(1, 0, 2, 0)
    add(4, 0, 3, 65536)
    add(5, 2, 3, 65536)
    add(5, 0, 4, 4096)
    add(6, 2, 4, 65536)
    add(10, 0x102, 2, 65536)
    add(10, 0x102, 3, 65536)
    add(1, 0, 2, 0, "0.90")
    add(5, 2, 3, 65536, "0.90")
    add(0, 0, 2, 65536, "0.90")
    add(-1, 0, 2, 0, "0.90")
    add(1, 0, 2, 0, spares=(0xFFFF,))
    add(5, 2, 3, 65536, spares=(0xFFFF,))
    add(5, 2, 3, 65536, spares=(0xFFFD,))
    add(1, 0, 1, 0)
    for level, n, slot in ((0, 2, 1), (1, 2, 0), (1, 2, 1), (5, 3, 0), (5, 3, 2)):
        out.append({"name": f"replaced-level{level}-{slot}", "fn": "h_replaced", "weight": 5, "cfg": {"level": level, "n": n, "slot": slot}})
    for n in (2, 3):
        out.append({"name": f"behind-{n}", "fn": "h_behind", "weight": 4, "cfg": {"n": n}})
    out.append({"name": "one-configuration", "fn": "h_one_configuration", "cfg": {}})
    if tier == "thorough":
        for lay in range(6):
            add(5, lay, 5, 524288)
        for lay in (0, 1, 3, 8, 9, 10, 16, 17, 18, 19, 20):
            add(6, lay, 5, 65536)
        add(10, 0x10201, 3, 65536)
        add(10, 0x201, 4, 65536)
        add(0, 1, 4, 524288)
        add(1, 0, 4, 0)
        add(6, 2, 5, 65536, "0.90")
        add(10, 0x102, 4, 65536, "0.90")
    out.append({"name": "two-sets", "fn": "h_two_sets", "cfg": {}})
    out.append({"name": "reference", "fn": "h_reference", "cfg": {}})
    return out


PROPERTIES = {
    "P08": {
        "jobs": jobs_p08,
        "must_reach": ["active", "not active", "0.90", "rejected", "misplaced rejected", "other version"],
        "bounds": "devices of any size up to 1 EiB (not a multiple of anything), size known by attribute or by seeking; every field of a "
                  "version 1.0/1.1/1.2 or 0.90 superblock free within its range (roles tables of 1, 2 and 4 entries, ASCII names of 0, 3 "
                  "and 32 characters, 0.90 device numbers 0, 1, 5, 26); any wrong magic; a superblock at any other sector; "
                  "major versions 2 to 2^32-1",
        "outside": "bitmaps, reshape state, checksums, big-endian 0.90 superblocks, names that are not ASCII",
    },
    "P09": {
        "jobs": jobs_p09,
        "must_reach": ["two sets", "newest", "read-compared", "replaced", "all fresh", "fell behind", "sets kept apart"] + [f"level{k}" for k in (-1, 0, 1, 4, 5, 6, 10)],
        "bounds": "levels linear/0/1/4/5/6/10 of 2 to 4 members (thorough: 5; a mirror also of 1, given as list, bare file or opened device) plus a spare or journal, free data offsets and sizes, free "
                  "update counts (fixed for 4 and more members), every rotation of the devices and its reverse (2 orders for 4 and more); "
                  "reads of 1..600 bytes at any position of the array; two interleaved sets with free identities; sets of "
                  "levels 0, 1 and 5 with one more device that claims an occupied slot and is at least two updates older; mirrors of 2 and "
                  "3 members with free update counts",
        "outside": "members of parity levels that fell behind without being replaced (they are used), level and layout combinations not listed (see the address mapping properties), bitmaps, reshape in progress, linear "
                   "sets with a nonzero rounding factor",
    },
}
