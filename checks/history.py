"""Histories: what was read before, and through which stream, does not matter."""

from __future__ import annotations

from checks import disk, dm, lvm, raid, vss
from checks.common import must

SECTOR = 512


class Stream:
    def __init__(self, fh, size, at, radices=None, lo=0, lane=None):
        self.fh, self.size, self.at, self.radices, self.lo, self.lane = fh, size, at, radices, lo, lane
        self.cur = 0


def play(w, streams, files, script, span):
    """Run ``script``, a list of (operation, stream), and compare everything read.

    seek: go to a free position; next: go on from where the stream is; back and on: go a free number of bytes back or on
    from there; end: go to a free distance from the end and read all that is left.
    """
    for n, (op, k) in enumerate(script):
        s, tag = streams[k], f"step{n}"
        for f in files:
            f.seek(w.int(f"{tag}.havoc", 0, 1 << 40))
        length = w.int(f"{tag}.len", 1, span)
        if op == "seek":
            hi = 1 << 44
            pos = w.int(f"{tag}.pos", 0, hi) if s.radices is None else w.mixed(f"{tag}.pos", s.radices, hi)
            w.assume(pos >= s.lo)
            if s.lane:
                # bitmaps have one byte for eight blocks
                w.assume(pos // s.lane % 8 == 3)
            if s.size is not None:
                # all but the last read are inside the volume
                w.assume(pos <= s.size + 16 if n + 1 == len(script) else pos + length <= s.size)
            to = must(w, f"{op} of {tag}", s.fh.seek, pos)
        elif op == "next":
            pos = s.cur
            to = must(w, "tell", s.fh.tell)
        elif op in ("back", "on"):
            d = w.int(f"{tag}.by", 1, span)
            if op == "back":
                d = -d
            pos = s.cur + d
            w.assume(pos >= s.lo)
            to = must(w, f"{op} of {tag}", s.fh.seek, d, 1)
        else:
            d = w.int(f"{tag}.by", 0, span)
            pos = s.size - d
            w.assume(pos >= s.lo)
            to = must(w, f"{op} of {tag}", s.fh.seek, -d, 2)
            length = d
        w.check(to == pos, f"{tag}: position after {op}")
        got = must(w, f"read of {tag}", s.fh.read) if op == "end" else must(w, f"read of {tag}", s.fh.read, length)
        m = length
        if s.size is not None and op != "end":
            if w.fork(pos >= s.size):
                m = 0
            elif w.fork(length > s.size - pos):
                m = s.size - pos
                w.reach("clipped")
        w.check_bytes(got, m, lambda i: s.at(pos + i), f"{tag}: bytes",
                      probe=None if s.radices is None else lambda name: w.mixed(f"{tag}.{name}", s.radices, 1 << 52) - pos)
        s.cur = pos + m
        w.check(must(w, "tell", s.fh.tell) == s.cur, f"{tag}: position after the read")
        w.reach(op)


# -- what is read --------------------------------------------------------------------------
# Each gives the streams and the files behind them.  With ``twice`` both streams are of one volume.


def two(w, open_, size, at, radices=None, **k):
    return [Stream(must(w, "open", open_), size, at, radices, **k) for _ in range(2)]


def s_parity(w, level, layout, n, stripe):
    disk_map, info = raid.members(w, n)
    size = w.int("size", 1, 1 << 44)
    vd = raid.virtual(level, layout, stripe, n, disk_map, size)
    at, radices = raid.parity_oracle(w, level, layout, n, stripe, info)
    return two(w, vd.open, size, at, radices), [f for f, _ in info.values()]


def s_raid10(w, layout, n, stripe):
    disk_map, info = raid.members(w, n)
    size = w.int("size", 1, 1 << 44)
    vd = raid.virtual(10, layout, stripe, n, disk_map, size)
    at, radices = raid.raid10_oracle(w, n, layout, stripe, info)
    return two(w, vd.open, size, at, radices), [f for f, _ in info.values()]


def s_raid0(w, n, stripe):
    rows = w.int("rows", 1, 1 << 30)
    disk_map, info = raid.members(w, n, sizes=[rows * stripe] * n)
    size = w.int("size", 1, 1 << 44)
    w.assume(size <= rows * (n * stripe))
    vd = raid.virtual(0, 0, stripe, n, disk_map, size)

    def at(addr):
        chunk, inside = addr // stripe, addr % stripe
        f, loc = info[w.concrete(chunk % n)]
        return ("at", f, loc + chunk // n * stripe + inside)

    return two(w, vd.open, size, at, [(stripe, False), (n, True)]), [f for f, _ in info.values()]


def s_zones(w, stripe):
    """Two members, of which the second has a zone of its own."""
    rows, more = w.int("rows", 1, 1 << 30), w.int("more", 1, 1 << 30)
    disk_map, info = raid.members(w, 2, sizes=[rows * stripe, (rows + more) * stripe])
    edge = rows * (2 * stripe)
    size = edge + more * stripe
    vd = raid.virtual(0, 2, stripe, 2, disk_map, size)

    def at(addr):
        if w.fork(addr >= edge):
            return ("at", info[1][0], info[1][1] + rows * stripe + addr - edge)
        chunk, inside = addr // stripe, addr % stripe
        f, loc = info[w.concrete(chunk % 2)]
        return ("at", f, loc + chunk // 2 * stripe + inside)

    a, b = two(w, vd.open, size, at, [(stripe, False), (2, True)])
    return [a, b], [f for f, _ in info.values()]


def s_linear(w, n):
    sizes, start = [w.int(f"room{i}", 1, 1 << 40) for i in range(n)], [w.int(f"d{i}.start", 0, 1 << 40) for i in range(n)]
    disk_map, info = raid.members(w, n, sizes=[a + b for a, b in zip(sizes, start)])
    total = sum(sizes)
    vd = raid.virtual(-1, 0, 0, n, disk_map, total)

    def at(addr):
        for i in range(n):
            if i + 1 == n or w.fork(addr < sizes[i]):
                return ("at", info[i][0], info[i][1] + addr)
            addr = addr - sizes[i]

    return two(w, vd.open, total, at), [f for f, _ in info.values()]


def s_mirror(w, n):
    size, start = w.int("size", 1, 1 << 44), [w.int(f"d{i}.start", 0, 1 << 40) for i in range(n)]
    disk_map, info = raid.members(w, n, sizes=[size + s for s in start])
    vd = raid.virtual(1, 0, 0, n, disk_map, size)
    return (two(w, vd.open, size, lambda a: ("any", [("at", f, loc + a) for f, loc in info.values()])), [f for f, _ in info.values()])


def s_partitions(w, ss, which=(0, 1)):
    """Two partitions of one disk, or the same one twice."""
    from dissect.volume.disk import Disk

    fh = w.file("disk", size=disk.SIZE)
    entries = {i: disk.entry(w, f"e{i}", 0x83) for i in range(2)}
    disk.boot_sector(w, fh, 0, "mbr", entries)
    fh.seek(0)
    parts = must(w, "opening", Disk, fh, ss).partitions
    out = []
    for k in which:
        first, count = entries[k][2:]
        out.append(Stream(must(w, "open", parts[k].open), count * ss, lambda a, first=first: ("at", fh, first * ss + a)))
    return out, [fh]


def s_lvs(w, plans, which=(0, 1)):
    """Two logical volumes of one group, or the same one twice."""
    g = lvm.Group(w, 8192, 2)
    radices = []
    for i, p in enumerate(plans):
        if p[0] == "lin":
            g.lv(f"lv{i}", *({"type": "striped", "count": w.int(f"count{i}.{j}", 1, 1 << 24), "areas": [(pv, g.pe(f"pe{i}.{j}"))]}
                             for j, pv in enumerate(p[1])))
            radices.append(None)
        else:
            n = len(p[1])
            g.lv(f"lv{i}", {"type": "striped", "count": w.int(f"rows{i}", 1, 1 << 24) * n, "chunk": p[2] * SECTOR,
                            "areas": [(pv, g.pe(f"pe{i}.{k}")) for k, pv in enumerate(p[1])]})
            radices.append([(p[2] * SECTOR, False), (n, True)])
    lvs = g.open()
    out = [Stream(must(w, "open", lvs[f"lv{i}"].open), g.size(f"lv{i}"), lambda a, i=i: g.at(f"lv{i}", a), radices[i]) for i in which]
    return out, g.files


def s_thin(w, maps, same, bsize=65536):
    """Two thin devices of one pool, or the same one twice."""
    from dissect.volume.dm.thin import ThinPool

    meta, data, ids, trees = dm.pool(w, bsize, maps, devs=len(maps))
    meta.seek(0)
    p = must(w, "opening the pool", ThinPool, meta, data)

    def oracle(which):
        def at(a):
            block, off = a // bsize, a % bsize
            e = dm.find(w, trees[which].entries, block)
            if e is None:
                return ("byte", 0)
            j = trees[which].entries.index(e)
            return ("at", data, w.int(f"m{which}.data{j}", 0, (1 << 38) - 1) * bsize + off)
        return at

    out = []
    for k in (0, 0) if same else (0, 1):
        size = w.int(f"size{k}", 1, 1 << 44)
        out.append(Stream(must(w, "open", p.open, ids[k], size), size, oracle(k), [(bsize, False)]))
    return out, [meta, data]


def s_pools(w, bsize=65536):
    """Devices with one number in two pools."""
    from dissect.volume.dm.thin import ThinPool

    out, files = [], []
    for k in range(2):
        sub = Prefixed(w, f"p{k}.")
        meta, data, ids, trees = dm.pool(sub, bsize, [1])
        if k:
            w.assume(ids[0] == w.int("p0.id0", 0, (1 << 24) - 1))
        meta.seek(0)
        p = must(w, "opening the pool", ThinPool, meta, data)

        def at(a, k=k, data=data, trees=trees):
            block, off = a // bsize, a % bsize
            e = dm.find(w, trees[0].entries, block)
            return ("byte", 0) if e is None else ("at", data, w.int(f"p{k}.m0.data0", 0, (1 << 38) - 1) * bsize + off)

        size = w.int(f"size{k}", 1, 1 << 44)
        out.append(Stream(must(w, "open", p.open, ids[0], size), size, at, [(bsize, False)]))
        files += [meta, data]
    return out, files


class Prefixed:
    """A world whose variables and files have a prefix of their own."""

    def __init__(self, w, prefix):
        self._w, self._p = w, prefix

    def int(self, name, lo, hi):
        return self._w.int(self._p + name, lo, hi)

    def file(self, name, **k):
        return self._w.file(self._p + name, **k)

    def region(self, fh, base, length, name):
        return self._w.region(fh, base, length, self._p + name)

    def __getattr__(self, name):
        return getattr(self._w, name)


def s_stores(w, plan, which=(0, -1)):
    """Two shadow copies of one volume, or the same one twice."""
    from dissect.volume.vss import VSS

    d = vss.Disk(w)
    stores, lists = [], []
    for k, kinds in enumerate(plan):
        descs = []
        for j, kind in enumerate(kinds):
            o, rel, data = (vss.spot(w, f"{x}{k}.{j}") for x in ("orig", "rel", "data"))
            descs.append((o, rel, data, vss.KINDS[kind], [(20, 1), (21, 1)] if kind == "over" else []))
        stores.append(descs)
        lists.append(vss.store(w, d, k, descs))
    size = w.int("size", 1, vss.META)

    def catalog(r):
        for k in range(len(plan)):
            vss.entries(r, 128 + 256 * k, vss.ident(k), size, k + 1, lists[k])

    d.header(d.chain(2, "cat", [catalog]))
    v = must(w, "opening", VSS, d.fh)
    radices = [(512, False), (vss.BLOCK // 512, False), (8, False)]
    out = []
    for k in (k % len(plan) for k in which):
        at = lambda a, k=k: vss.value_of(w, d.fh, stores, k, a // vss.BLOCK, a % vss.BLOCK, lambda block: True)  # noqa: E731
        out.append(Stream(must(w, "open", v.catalog.stores[k].open), size, at, radices, lo=vss.BLOCK, lane=vss.BLOCK))
    return out, [d.fh]


SUBJECTS = {"parity": s_parity, "raid10": s_raid10, "raid0": s_raid0, "zones": s_zones, "linear": s_linear, "mirror": s_mirror,
            "partitions": s_partitions, "lvs": s_lvs, "thin": s_thin, "pools": s_pools, "stores": s_stores}


def h_history(w, subject, script, span, **cfg):
    streams, files = SUBJECTS[subject](w, **cfg)
    play(w, streams, files, script, span)


def h_lookups(w, shape, again):
    """Lookups in a B-tree, one after the other."""
    from dissect.volume.dm.btree import BTree

    fh = w.file("meta", size=1 << 60)
    t = dm.Tree(w, fh, 4096, "t", [])
    root = dm.build(w, t, shape, lambda j: w.int(f"value{j}", 0, dm.TOP), 252)
    bt = must(w, "opening", BTree, fh, root, 8)
    for n in range(again):
        fh.seek(w.int(f"havoc{n}", 0, 1 << 40))
        key = w.int(f"key{n}", 0, dm.TOP)
        got = must(w, "lookup", bt.lookup, key)
        e = dm.find(w, t.entries, key)
        if e is None:
            w.check(got is None, f"lookup {n} of an absent key")
        elif got is None:
            w.fail(f"lookup {n}: key not found")
        else:
            w.check_bytes(got, 8, lambda i: ("at", fh, e[2] + i), f"lookup {n}")
    w.reach("lookups")


SCRIPTS = {
    "on": [("seek", 0), ("next", 0)],
    "back": [("seek", 0), ("back", 0)],
    "skip": [("seek", 0), ("on", 0)],
    "again": [("seek", 0), ("seek", 0)],
    "other": [("seek", 0), ("seek", 1)],
    "between": [("seek", 0), ("seek", 1), ("next", 0)],
    "end": [("end", 0), ("seek", 0)],
}


def jobs_p25(tier):
    out = []

    def add(name, subject, scripts, span=48, weight=5, raw=False, **cfg):
        for s in scripts.split():
            out.append({"name": f"{name}-{s}", "fn": "h_history", "raw": raw, "max_ticks": 2000000, "weight": weight + len(SCRIPTS[s]),
                        "cfg": {"subject": subject, "script": SCRIPTS[s], "span": span, **cfg}})

    every = "on back skip again other between end"
    add("raid4", "parity", every, level=4, layout=0, n=3, stripe=4096)
    add("raid5", "parity", "on back skip", level=5, layout=2, n=3, stripe=4096)
    add("raid6", "parity", "on", level=6, layout=2, n=4, stripe=4096)
    add("raid10", "raid10", "on back again other", layout=0x102, n=3, stripe=4096)
    add("raid0", "raid0", every, n=2, stripe=4096)
    add("zones", "zones", "on back again", stripe=4096)
    add("linear", "linear", every, n=2)
    add("linear-raw", "linear", "on", n=1, raw=True)
    add("raid1", "mirror", every, n=2)
    add("raid1-raw", "mirror", "on", n=2, raw=True)
    add("partitions", "partitions", every, ss=512, raw=True)
    add("lvs", "lvs", every, plans=[("lin", [0, 1]), ("lin", [1])])
    add("partition", "partitions", "between", ss=512, which=(0, 0))
    add("lv", "lvs", "between", plans=[("lin", [0, 1])], which=(0, 0))
    add("lvs-raw", "lvs", "on", plans=[("lin", [0, 1]), ("lin", [1])], raw=True)
    add("striped", "lvs", "on other between", plans=[("str", [0, 1], 8), ("lin", [1])])
    add("thin", "thin", "on back skip again other end", maps=[2], same=True)
    add("thins", "thin", "other between", maps=[1, 1], same=False)
    add("pools", "pools", "other")
    add("store", "stores", "between", plan=[[]], which=(0, 0))
    add("stores", "stores", "again other", plan=[["plain"], []])
    out.append({"name": "lookups", "fn": "h_lookups", "cfg": {"shape": [1, 1], "again": 2}, "weight": 5})
    if tier == "thorough":
        add("raid5", "parity", "again other between end", level=5, layout=2, n=3, stripe=4096)
        add("raid5-la", "parity", "again", level=5, layout=0, n=4, stripe=65536)
        add("raid6", "parity", "again between", level=6, layout=2, n=4, stripe=4096)
        add("raid10", "raid10", "skip between end", layout=0x102, n=3, stripe=4096)
        add("raid10-offset", "raid10", "on again", layout=0x10201, n=3, stripe=4096)
        add("zones", "zones", "between", stripe=4096)
        add("linear-raw", "linear", "back skip end", n=1, raw=True)
        add("raid1-raw", "mirror", "back skip again end", n=2, raw=True)
        add("lvs-raw", "lvs", "back skip again other end", plans=[("lin", [0, 1]), ("lin", [1])], raw=True)
        add("striped", "lvs", "again", plans=[("str", [0, 1], 8), ("lin", [1])])
        add("thin", "thin", "between", maps=[2], same=True)
        add("pools", "pools", "between")
        add("stores-over", "stores", "again other between", plan=[["plain"], ["over"]])
        out.append({"name": "lookups-4", "fn": "h_lookups", "cfg": {"shape": [[1, 1], [1, 1]], "again": 3}, "weight": 5})
    return out


PROPERTIES = {
    "P25": {
        "jobs": jobs_p25,
        "must_reach": ["seek", "next", "back", "on", "end", "clipped", "lookups"],
        "bounds": "two or three reads of up to 48 bytes through one or two streams, in the orders listed by SCRIPTS (read on, seek back or on relative to the position, read elsewhere, read another stream in between, read from a distance to the end until the end); positions anywhere below 2^44, all but the last read inside the volume; RAID0 (one zone, two zones), RAID1, linear, RAID4, RAID5, RAID6 and RAID10 arrays of 1-4 members with 4 KiB chunks, two MBR partitions of a disk, two logical volumes of a group (linear over two segments, striped), two devices of a thin pool with 1-2 mapped blocks each, devices of two pools, two shadow copies of a volume, lookups in a B-tree of two leaves; the positions of the files behind the streams are free before every read",
        "outside": "longer histories; reads longer than 48 bytes; use from several threads",
    },
}
