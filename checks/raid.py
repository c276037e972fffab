"""RAID address mapping: virtual disk streams over opaque member devices."""

from __future__ import annotations

from checks.common import must, read_at

BIG = 1 << 46


def members(w, n, skip=(), sizes=None, prefix="d"):
    """``n`` member disks at symbolic positions on opaque files; returns the disk map and a locator."""
    from dissect.volume.raid.raid import PhysicalDisk

    disk_map, info = {}, {}
    for i in range(n):
        fh = w.file(f"{prefix}{i}")
        off = w.int(f"{prefix}{i}.off", 0, 1 << 40)
        start = w.int(f"{prefix}{i}.start", 0, 1 << 40)
        size = sizes[i] if sizes else BIG
        info[i] = (fh, off + start)
        if i not in skip:
            disk_map[i] = (start, PhysicalDisk(fh, off, size))
    return disk_map, info


def virtual(level, layout, stripe, n, disk_map, size):
    from dissect.volume.raid.raid import VirtualDisk

    return VirtualDisk("name", "uuid", size, level, layout, stripe, n, disk_map)


# -- parity layouts ----------------------------------------------------------------------
# One row of a layout lists, for each data chunk of the row, the member that holds it.


def row5(layout, n, r):
    if layout == 0:
        p = (n - 1 - r) % n
        return [d for d in range(n) if d != p]
    if layout == 1:
        p = r % n
        return [d for d in range(n) if d != p]
    if layout == 2:
        p = (n - 1 - r) % n
        return [(p + 1 + j) % n for j in range(n - 1)]
    if layout == 3:
        p = r % n
        return [(p + 1 + j) % n for j in range(n - 1)]
    if layout == 4:
        return list(range(1, n))
    if layout == 5:
        return list(range(n - 1))
    raise AssertionError


def row6(layout, n, r):
    if layout in (0, 1, 8, 9):
        p = {0: n - 1 - r, 1: r, 8: r, 9: n - 1 - (r + 1)}[layout] % n
        q = (p + 1) % n
        return [d for d in range(n) if d not in (p, q)]
    if layout in (2, 3):
        p = (n - 1 - r if layout == 2 else r) % n
        return [(p + 2 + j) % n for j in range(n - 2)]
    if layout == 4:
        return list(range(2, n))
    if layout == 5:
        return list(range(n - 2))
    if layout == 10:
        p = (n - 1 - r) % n
        return [(p + 1 + j) % n for j in range(n - 2)]
    if layout in (16, 17, 18, 19, 20):
        # RAID5 over the first n-1 members, Q always on the last
        return row5(layout - 16, n - 1, r)
    raise AssertionError


def parity_oracle(w, level, layout, n, stripe, info):
    data = n - (2 if level == 6 else 1)
    period = n * (n - 1)
    if level == 4:
        rows = [list(range(n - 1))]
    elif level == 5:
        rows = [row5(layout, n, r) for r in range(n)]
    else:
        rows = [row6(layout, n, r) for r in range(period)]
        for p in (1, n - 1, n):
            if all(rows[k] == rows[k % p] for k in range(len(rows))):
                rows = rows[:p]
                break

    def at(addr):
        chunk, inside = addr // stripe, addr % stripe
        row = chunk // data
        j = w.concrete(chunk % data)
        r = w.concrete(row % len(rows)) if len(rows) > 1 else 0
        fh, base = info[rows[r][j]]
        return ("at", fh, base + row * stripe + inside)

    return at, [(stripe, False), (data, True), (len(rows), True)]


def h_parity(w, level, layout, n, stripe, reads=1, chunks=3):
    disk_map, info = members(w, n)
    size = w.int("size", 1, 1 << 44)
    vd = virtual(level, layout, stripe, n, disk_map, size)
    fh = must(w, "open", vd.open)
    w.check(fh.size == size, "stream size")
    at, radices = parity_oracle(w, level, layout, n, stripe, info)
    for k in range(reads):
        for f in info.values():
            # The position a member file was left at must not matter
            f[0].seek(w.int(f"havoc{k}", 0, 1 << 40))
        read_at(w, fh, size, at, f"r{k}", chunks * stripe, radices=radices)


def split_pos(w, tag, base, radices, hi):
    """An arbitrary position at or after ``base``, with the distance in mixed radix."""
    return base + w.mixed(tag, radices, hi)


# -- concatenation -----------------------------------------------------------------------


def h_linear(w, n, reads=1, max_len=1 << 41):
    from dissect.volume.raid.raid import PhysicalDisk

    disk_map, info, total = {}, [], 0
    order = list(range(n))
    for i in range(n):
        fh = w.file(f"d{i}")
        off = w.int(f"d{i}.off", 0, 1 << 40)
        start = w.int(f"d{i}.start", 0, 1 << 30)
        room = w.int(f"d{i}.room", 1, 1 << 40)
        disk_map[i] = (start, PhysicalDisk(fh, off, start + room))
        info.append((total, room, fh, off + start))
        total = total + room
    if w.pick("shuffled", [False, True]):
        # the order in which members were found does not matter
        disk_map = {i: disk_map[i] for i in reversed(order)}
    vd = virtual(-1, 0, 0, n, disk_map, total)
    fh = must(w, "open", vd.open)
    w.check(fh.size == total, "stream size")

    def at(addr):
        for base, room, f, loc in info[:-1]:
            if w.fork(addr < base + room):
                return ("at", f, loc + addr - base)
        base, room, f, loc = info[-1]
        return ("at", f, loc + addr - base)

    for k in range(reads):
        for _, _, f, _ in info:
            f.seek(w.int(f"havoc{k}", 0, 1 << 40))
        read_at(w, fh, total, at, f"r{k}", max_len)


def jobs_p01(tier):
    out = [{"name": f"linear-n{n}", "fn": "h_linear", "weight": n, "cfg": {"n": n}} for n in (1, 2, 3, 4)]
    out += [{"name": f"linear-n{n}-two-reads", "fn": "h_linear", "weight": 9, "cfg": {"n": n, "reads": 2}} for n in (2, 3)]
    out.append({"name": "linear-n1-raw", "fn": "h_linear", "weight": 99, "raw": True, "cfg": {"n": 1, "max_len": 1 << 14}})
    if tier == "thorough":
        out += [{"name": f"linear-n{n}", "fn": "h_linear", "weight": n, "cfg": {"n": n}} for n in (5, 6)]
        out += [{"name": f"linear-n{n}-two-reads", "fn": "h_linear", "weight": 20, "cfg": {"n": n, "reads": 2}} for n in (3, 4)]
    return out


# -- striping ----------------------------------------------------------------------------


def h_raid0(w, classes, stripe, layout, zone, reads=1, chunks=3):
    """``classes[i]``: rank of member i's size; ``zone``: the strip zone the read starts in."""
    n = len(classes)
    ranks = sorted(set(classes))
    q, qs = 0, []
    for r in ranks:
        q = q + w.int(f"rows{r}", 1, 1 << 30)
        qs.append(q)
    sizes = []
    for i in range(n):
        tail = w.int(f"d{i}.tail", 0, stripe - 1)
        sizes.append(qs[ranks.index(classes[i])] * stripe + tail)
    disk_map, info = members(w, n, sizes=sizes)
    zones, base, row0 = [], 0, 0
    for k, r in enumerate(ranks):
        devs = [i for i in range(n) if classes[i] >= r]
        rows = qs[k] - row0
        zones.append((base, row0, rows, devs))
        base = base + rows * (len(devs) * stripe)
        row0 = qs[k]
    size = w.int("size", 1, 1 << 60)
    w.assume(size <= base)
    vd = virtual(0, layout, stripe, n, disk_map, size)
    fh = must(w, "open", vd.open)
    w.check(fh.size == size, "stream size")
    whole = len(zones) == 1 or len(zones[1][3]) == 1 or layout == 1

    def at(addr):
        for k, (b, row0, rows, devs) in enumerate(zones):
            m = len(devs)
            if k + 1 < len(zones) and not w.fork(addr < b + rows * (m * stripe)):
                continue
            rel = addr - b
            chunk, inside = rel // stripe, rel % stripe
            row = chunk // m
            which = w.concrete(((addr // stripe) if whole else chunk) % m)
            f, loc = info[devs[which]]
            return ("at", f, loc + (row0 + row) * stripe + inside)

    zb, _, _, zdevs = zones[zone]
    radices = [(stripe, False), (len(zdevs), True)]
    for k in range(reads):
        for f, _ in info.values():
            f.seek(w.int(f"havoc{k}", 0, 1 << 40))
        pos = split_pos(w, f"r{k}.pos", zb, radices, 1 << 60)
        if zone + 1 < len(zones):
            w.assume(pos < zones[zone + 1][0])
        w.reach(f"zone{zone}")
        read_at(w, fh, size, at, f"r{k}", chunks * stripe, pos=pos)


def jobs_p02(tier):
    out = []
    pats = [[0], [0, 0], [0, 1], [1, 0], [0, 0, 0], [0, 1, 1], [1, 0, 1], [1, 1, 0], [0, 1, 2], [2, 0, 1], [0, 0, 1]]
    stripes = [4096]
    if tier == "thorough":
        pats += [[1, 0, 0], [2, 1, 0], [0, 0, 0, 0], [0, 1, 1, 1], [1, 0, 1, 0], [1, 1, 2, 0], [3, 0, 2, 1]]
        stripes = [512, 4096, 65536, 12288]
    for pat in pats:
        nz = len(set(pat))
        second = sum(1 for c in pat if c > min(pat))
        lays = (0,) if nz == 1 or second == 1 else (1, 2)
        for lay in lays:
            for s in stripes + ([65536] if tier == "quick" and pat == [0, 0] else []):
                for z in range(nz):
                    out.append({"name": f"raid0-{''.join(map(str, pat))}-layout{lay}-s{s}-zone{z}", "fn": "h_raid0",
                                "weight": len(pat) + nz, "cfg": {"classes": pat, "stripe": s, "layout": lay, "zone": z}})
    return out


# -- mirroring ---------------------------------------------------------------------------


def h_raid1(w, n, missing, reads=1):
    from dissect.volume.raid.raid import PhysicalDisk

    disk_map, info = {}, []
    size = w.int("size", 1, 1 << 44)
    for i in range(n):
        fh = w.file(f"d{i}")
        off = w.int(f"d{i}.off", 0, 1 << 40)
        start = w.int(f"d{i}.start", 0, 1 << 30)
        slack = w.int(f"d{i}.slack", 0, 1 << 30)
        if i in missing:
            continue
        disk_map[i] = (start, PhysicalDisk(fh, off, start + size + slack))
        info.append((fh, off + start))
    vd = virtual(1, 0, 0, n, disk_map, size)
    fh = must(w, "open", vd.open)
    for k in range(reads):
        for f, _ in info:
            f.seek(w.int(f"havoc{k}", 0, 1 << 40))
        pos = w.int(f"r{k}.pos", 0, 1 << 44)
        length = w.int(f"r{k}.len", 1, 1 << 44)
        w.assume(pos + length <= size)
        read_at(w, fh, None, lambda a: ("any", [("at", f, loc + a) for f, loc in info]), f"r{k}", 1 << 44, pos=pos,
                length=length)


def jobs_p03(tier):
    out = []
    for n, missing in ((1, []), (2, []), (2, [0]), (2, [1]), (3, [1]), (3, [0, 2])):
        out.append({"name": f"raid1-n{n}-without{missing}", "fn": "h_raid1", "cfg": {"n": n, "missing": missing}})
        out.append({"name": f"raid1-n{n}-without{missing}-two-reads", "fn": "h_raid1",
                    "cfg": {"n": n, "missing": missing, "reads": 2}})
    return out


# -- RAID10 ------------------------------------------------------------------------------


def raid10_oracle(w, n, layout, stripe, info):
    near, far, offset = layout & 0xFF, (layout >> 8) & 0xFF, bool(layout & (1 << 16))
    per = n  # chunk*near = k*n + d; the member pattern repeats every n chunks

    def at(addr):
        chunk, inside = addr // stripe, addr % stripe
        group = chunk // per
        j = w.concrete(chunk % per)
        places = []
        for c in range(near):
            slot = j * near + c
            row = group * near + slot // n
            dev = slot % n
            f, loc = info[dev]
            places.append(("at", f, loc + (row * far if offset else row) * stripe + inside))
        return ("any", places)

    return at, [(stripe, False), (per, True)]


def h_raid10(w, n, layout, stripe, reads=1, chunks=3):
    disk_map, info = members(w, n)
    size = w.int("size", 1, 1 << 44)
    vd = virtual(10, layout, stripe, n, disk_map, size)
    fh = must(w, "open", vd.open)
    w.check(fh.size == size, "stream size")
    at, radices = raid10_oracle(w, n, layout, stripe, info)
    for k in range(reads):
        for f in info.values():
            f[0].seek(w.int(f"havoc{k}", 0, 1 << 40))
        read_at(w, fh, size, at, f"r{k}", chunks * stripe, radices=radices)


def jobs_p06(tier):
    out = []
    cfg = [(2, 0x102), (3, 0x102), (4, 0x102), (5, 0x102), (3, 0x103), (4, 0x103), (2, 0x201), (4, 0x201), (4, 0x202),
           (2, 0x10201), (3, 0x10201), (4, 0x10201), (4, 0x10301), (4, 0x20201), (4, 0x40201), (6, 0x40202)]
    stripes = (4096,)
    if tier == "thorough":
        cfg += [(6, 0x102), (6, 0x103), (7, 0x102), (7, 0x103), (5, 0x104), (5, 0x10201), (6, 0x10202), (6, 0x10302),
                (6, 0x20201), (6, 0x50202), (6, 0x30201), (3, 0x202), (5, 0x203)]
        stripes = (512, 4096, 65536, 12288)
    for n, lay in cfg:
        for s in stripes + ((65536,) if tier == "quick" and (n, lay) in ((4, 0x102), (3, 0x10201)) else ()):
            out.append({"name": f"raid10-n{n}-{lay:#x}-s{s}", "fn": "h_raid10", "weight": n,
                        "cfg": {"n": n, "layout": lay, "stripe": s}})
    return out


# -- absent members ----------------------------------------------------------------------


def h_missing(w, level, layout, n, stripe, missing, must_fail=False):
    disk_map, info = members(w, n, skip=missing)
    size = w.int("size", 1, 1 << 44)
    vd = virtual(level, layout, stripe, n, disk_map, size)
    fh, err = w.call(vd.open)
    if err is not None:
        w.reach("refused-at-open")
        return
    if must_fail:
        w.fail("opened without enough members")
    if level == 10:
        at, radices = raid10_oracle(w, n, layout, stripe, info)
    else:
        at, radices = parity_oracle(w, level, layout, n, stripe, info)
    pos = w.mixed("pos", radices, 1 << 44)
    length = w.int("len", 1, 2 * stripe)
    w.assume(pos + length <= size)
    fh.seek(pos)
    got, err = w.call(fh.read, length)
    if err is not None:
        w.reach("refused-at-read")
        return
    w.check_bytes(got, length, lambda i: at(pos + i), "degraded read",
                  probe=lambda name: w.mixed(name, radices, 1 << 52) - pos)
    w.reach("read-compared")


def h_missing_simple(w, level, n, missing):
    """Concatenated and striped sets have no redundancy: they never open incomplete."""
    from dissect.volume.raid.raid import PhysicalDisk

    disk_map = {}
    for i in range(n):
        fh = w.file(f"d{i}")
        size = w.int(f"d{i}.size", 1 << 16, 1 << 40)
        if i not in missing:
            disk_map[i] = (0, PhysicalDisk(fh, w.int(f"d{i}.off", 0, 1 << 40), size))
    vd = virtual(level, 0, 4096, n, disk_map, w.int("size", 1, 1 << 44))
    fh, err = w.call(vd.open)
    if err is None:
        w.fail("opened without all members")
    w.reach("refused-at-open")


def jobs_p07(tier):
    out = []
    for level, n, missing in ((-1, 2, [0]), (-1, 2, [1]), (-1, 3, [1]), (0, 2, [0]), (0, 2, [1]), (0, 3, [1]), (0, 3, [0, 2]),
                              (-1, 3, [0, 1]), (0, 4, [3]), (-1, 4, [2])):
        out.append({"name": f"level{level}-n{n}-without{missing}", "fn": "h_missing_simple",
                    "cfg": {"level": level, "n": n, "missing": missing}})
    cfg = [(4, 0, 3), (5, 0, 3), (5, 2, 4), (6, 2, 4), (6, 10, 5), (10, 0x102, 4), (10, 0x10201, 3)]
    if tier == "thorough":
        cfg += [(5, 1, 4), (5, 3, 4), (5, 4, 4), (5, 5, 4), (6, 0, 4), (6, 1, 5), (6, 8, 5), (6, 16, 5), (10, 0x103, 5), (10, 0x201, 4)]
    for level, lay, n in cfg:
        allowed = {4: 1, 5: 1, 6: 2}.get(level, n)
        for missing in [[i] for i in range(n)] + [[0, n - 1], [1, 2]] + ([[0, 1, 2]] if n > 3 else []):
            out.append({"name": f"level{level}-layout{lay:#x}-n{n}-without{missing}", "fn": "h_missing", "weight": n,
                        "cfg": {"level": level, "layout": lay, "n": n, "stripe": 4096, "missing": missing,
                                "must_fail": len(missing) > allowed}})
    return out


def parity_jobs(tier, cfg, stripes, extra=()):
    out = []
    for level, lay, n in cfg:
        for s in stripes + tuple(x for c, x in extra if c == (level, lay, n)):
            out.append({"name": f"raid{level}-layout{lay}-n{n}-s{s}", "fn": "h_parity", "weight": n,
                        "cfg": {"level": level, "layout": lay, "n": n, "stripe": s}})
    return out


def jobs_p04(tier):
    if tier == "quick":
        cfg = [(4, 0, n) for n in (3, 4)] + [(5, lay, n) for lay in range(6) for n in (3, 4)]
        out = parity_jobs(tier, cfg, (4096,), extra=(((4, 0, 3), 65536), ((5, 2, 3), 65536)))
        return out
    cfg = [(4, 0, n) for n in (2, 3, 4, 5, 6)] + [(5, lay, n) for lay in range(6) for n in (2, 3, 4, 5, 6, 7)]
    return parity_jobs(tier, cfg, (512, 4096, 65536, 524288, 3 * 4096))


def jobs_p05(tier):
    lays = (0, 1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 18, 19, 20)
    if tier == "quick":
        cfg = [(6, lay, n) for lay in lays for n in (4, 5)]
        return parity_jobs(tier, cfg, (4096,), extra=(((6, 2, 4), 65536),))
    cfg = [(6, lay, n) for lay in lays for n in (4, 5, 6, 7)]
    return parity_jobs(tier, cfg, (512, 4096, 65536, 3 * 4096))


READ = ["read-compared", "read-clipped-at-end"]
GEOM = ("member files, member start positions (0..2^41), array size (1..2^44), read position, read length and the "
        "position every member file was left at are symbolic; ")
PROPERTIES = {
    "P01": {
        "jobs": jobs_p01,
        "must_reach": READ,
        "bounds": "1..4 members (thorough 1..6), member sizes 1..2^40 bytes, data starts, array offset, read position and "
                  "read length (1..2^41) symbolic; members presented in either order; up to 2 reads on one stream",
        "outside": "more members; more than two successive reads; concurrent use of one stream",
    },
    "P02": {
        "jobs": jobs_p02,
        "must_reach": READ + ["zone0", "zone1", "zone2"],
        "bounds": GEOM + "member sizes 1..2^30 stripes plus a symbolic tail; 1..3 members (thorough 4) in every listed "
                  "size order, up to 3 strip zones, stripe 4096 and 65536 (thorough 512, 4096, 12288, 65536), reads up to "
                  "3 stripes from any zone, layout original and alternate",
        "outside": "other member counts and stripe sizes; reads longer than 3 stripes; multi-zone sets without a layout",
    },
    "P03": {
        "jobs": jobs_p03,
        "must_reach": ["read-compared"],
        "bounds": "1..3 members with any listed subset absent; member positions, data starts, sizes, read position and "
                  "length symbolic up to 2^44; up to 2 reads",
        "outside": "more members; members whose contents differ (a stale mirror half)",
    },
    "P04": {
        "jobs": jobs_p04,
        "must_reach": READ,
        "bounds": GEOM + "RAID4 and all six RAID5 layouts over 3..4 members (thorough 2..7), stripe 4096 and 65536 "
                  "(thorough 512..524288), reads up to 3 stripes",
        "outside": "other member counts and stripe sizes; reads longer than 3 stripes",
    },
    "P05": {
        "jobs": jobs_p05,
        "must_reach": READ,
        "bounds": GEOM + "all fourteen RAID6 layouts over 4..5 members (thorough 4..7), stripe 4096 and 65536 (thorough "
                  "512..65536), reads up to 3 stripes",
        "outside": "other member counts and stripe sizes; reads longer than 3 stripes; P and Q contents (never read)",
    },
    "P06": {
        "jobs": jobs_p06,
        "must_reach": READ,
        "bounds": GEOM + "near, far and offset layouts with 1..3 near and 1..3 far copies, all three far-set variants, over "
                  "2..6 members (thorough 2..7), stripe 4096 and 65536 (thorough 512..65536), reads up to 3 stripes",
        "outside": "other geometries; reads longer than 3 stripes; reads served from far copies at non-adjacent rows",
    },
    "P07": {
        "jobs": jobs_p07,
        "must_reach": ["refused-at-open", "refused-at-read", "read-compared"],
        "bounds": "every single absent member and selected pairs/triples for the listed geometries; stripe 4096; sizes, "
                  "positions and lengths symbolic; reads up to 2 stripes",
        "outside": "other geometries and absent subsets",
    },
}
