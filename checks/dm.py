"""Device-mapper thin provisioning: B-tree lookups, reads of thin devices."""

from __future__ import annotations

from checks.common import must, read_at

INTERNAL, LEAF = 1, 2
SECTOR = 512
MAGIC = 27022010
TOP = (1 << 64) - 1


class Tree:
    """Lays out B-tree nodes in free, distinct blocks of a metadata device."""

    def __init__(self, w, fh, bs, tag, blocks=None, base=0, limit=1 << 40):
        self.w, self.fh, self.bs, self.tag = w, fh, bs, tag
        self.base, self.limit = base, limit
        self.blocks = blocks if blocks is not None else []
        self.count = 0
        self.entries = []
        """(key, value, where the value is on the metadata device) in key order."""

    def block(self):
        b = self.w.int(f"{self.tag}.block{self.count}", 1, self.limit)
        self.count += 1
        for o in self.blocks:
            self.w.assume(b != o)
        self.blocks.append(b)
        return b

    def node(self, kind, pairs, room, vsize=8):
        """``pairs``: [(key, value)]; ``room``: the number of entries there is place for."""
        blk = self.block()
        r = self.w.region(self.fh, self.base + blk * self.bs, self.bs, f"{self.tag}.node{self.count}")
        flags = kind
        r.uint(0, 4, self.w.int(f"{self.tag}.csum{self.count}", 0, (1 << 32) - 1))
        r.uint(4, 4, flags)
        r.uint(8, 8, blk)
        r.uint(16, 4, len(pairs))
        r.uint(20, 4, room)
        r.uint(24, 4, vsize)
        r.uint(28, 4, 0)
        for i, (k, v) in enumerate(pairs):
            at = 32 + 8 * room + vsize * i
            r.uint(32 + 8 * i, 8, k)
            if isinstance(v, list):
                for j, part in enumerate(v):
                    r.uint(at + 8 * j, 8, part)
            else:
                r.uint(at, 8, v)
            if kind == LEAF:
                self.entries.append((k, v, self.base + blk * self.bs + at))
        return blk

    def keys(self, n, name, hi=TOP):
        """``n`` ascending keys behind all keys handed out before."""
        out = []
        for i in range(n):
            k = self.w.int(f"{self.tag}.{name}{i}", 0, hi)
            if self.last is not None:
                self.w.assume(k > self.last)
            self.last = k
            out.append(k)
        return out

    last = None


def build(w, tree, shape, values, room, vsize=8, hi=TOP):
    """``shape``: a number (a leaf of that many entries) or a list of shapes (an internal node).

    The key an internal node keeps for a child is at most the child's first key and above all keys before it.
    """
    if isinstance(shape, int):
        keys = tree.keys(shape, f"k{len(tree.entries)}.", hi)
        return tree.node(LEAF, [(k, values(len(tree.entries) + i)) for i, k in enumerate(keys)], room or shape, vsize)
    pairs = []
    for i, child in enumerate(shape):
        low = w.int(f"{tree.tag}.low{len(tree.blocks)}.{i}", 0, hi)
        if tree.last is not None:
            w.assume(low > tree.last)
        n = len(tree.entries)
        blk = build(w, tree, child, values, room, vsize, hi)
        if len(tree.entries) > n:
            w.assume(low <= tree.entries[n][0])
        pairs.append((low, blk))
    return tree.node(INTERNAL, pairs, room or len(pairs))


def find(w, entries, key):
    """The entry with that key, or None."""
    for e in entries:
        if w.fork(e[0] == key):
            return e
    return None


# -- P18 ---------------------------------------------------------------------------------


def h_lookup(w, shape, room=0, bs=4096, vsize=8):
    """One tree, any key."""
    from dissect.volume.dm.btree import BTree

    fh = w.file("meta", size=1 << 60)
    t = Tree(w, fh, bs, "t")

    def value(i):
        return w.int(f"v{i}", 0, TOP) if vsize == 8 else [w.int(f"v{i}.{j}", 0, TOP) for j in range(vsize // 8)]

    root = build(w, t, shape, value, room, vsize)
    bt = must(w, "opening", BTree, fh, root, bs // SECTOR)
    for which in range(2):
        # a second lookup is not influenced by the first
        key = w.int(f"key{which}", 0, TOP) if which == 0 or not t.entries else t.entries[-1][0]
        fh.seek(w.int("havoc", 0, 1 << 40))
        got = must(w, "looking up", bt.lookup, key)
        e = find(w, t.entries, key)
        if e is None:
            w.check(got is None, "nothing is stored for the key")
            w.reach("absent")
        else:
            w.check(got is not None, "the key is found")
            w.check_bytes(got, vsize, lambda i: ("at", fh, e[2] + i), "value")
            w.reach("found")


def h_lookup2(w, shape, sub, room=0):
    """Two keys: the value for the first is the root of the tree for the second."""
    from dissect.volume.dm.btree import BTree

    fh = w.file("meta", size=1 << 60)
    bs = 4096
    subs, blocks = [], []
    for i, s in enumerate(sub):
        t = Tree(w, fh, bs, f"s{i}", blocks)
        root = build(w, t, s, lambda j, i=i: w.int(f"v{i}.{j}", 0, TOP), room)
        subs.append((root, t))
    top = Tree(w, fh, bs, "t", blocks)
    root = build(w, top, shape, lambda i: subs[i][0], room)
    bt = must(w, "opening", BTree, fh, root, bs // SECTOR)
    dev, key = w.int("dev", 0, TOP), w.int("key", 0, TOP)
    got = must(w, "looking up", bt.lookup, [dev, key])
    e = find(w, top.entries, dev)
    if e is not None:
        e = find(w, subs[top.entries.index(e)][1].entries, key)
    if e is None:
        w.check(got is None, "nothing is stored for the keys")
        w.reach("absent")
    else:
        w.check(got is not None, "the keys are found")
        w.check_bytes(got, 8, lambda i: ("at", fh, e[2] + i), "value")
        w.reach("found two")


def jobs_p18(tier):
    out = []

    def add(fn, name, weight=3, **cfg):
        out.append({"name": name, "fn": fn, "cfg": cfg, "weight": weight})

    for n in range(6):
        add("h_lookup", f"leaf-{n}", shape=n)
    add("h_lookup", "leaf-4-room", shape=4, room=252)
    add("h_lookup", "leaf-3-details", shape=3, room=126, vsize=24)
    add("h_lookup", "leaf-7-512", shape=7, bs=512)
    add("h_lookup", "two-111", 5, shape=[1, 1, 1])
    add("h_lookup", "two-32", 5, shape=[3, 2], room=252)
    add("h_lookup", "two-2222", 5, shape=[2, 2, 2, 2])
    add("h_lookup", "three", 7, shape=[[2, 1], [1, 2]])
    add("h_lookup2", "levels-leaf", 5, shape=2, sub=[2, 3])
    add("h_lookup2", "levels-deep", 7, shape=[1, 1], sub=[[1, 2], 1], room=252)
    if tier == "thorough":
        add("h_lookup", "leaf-12", 7, shape=12)
        add("h_lookup", "leaf-31", 7, shape=31, room=252)
        add("h_lookup", "three-wide", 9, shape=[[2, 3, 1], [1, 4], [2, 2, 2]], room=252)
        add("h_lookup", "four", 9, shape=[[[1, 2], [1]], [[2], [1, 1]]])
        add("h_lookup2", "levels-wide", 9, shape=[2, 1, 1], sub=[[2, 2], 3, [[1, 1], [2]], 0])
    return out


# -- P19 ---------------------------------------------------------------------------------


def pool(w, bsize, maps, devs=1, bs=4096, room=252, magic=MAGIC, units=None):
    """Metadata of a pool; returns (metadata file, data file, device ids, mapping entries of device 0)."""
    meta, data = w.file("meta", size=1 << 60), w.file("data", size=1 << 62)
    blocks, ids, roots, trees = [], [], [], []
    for i in range(devs):
        ids.append(w.int(f"id{i}", 0, (1 << 24) - 1))
        if i:
            w.assume(ids[i] > ids[i - 1])
        t = Tree(w, meta, bs, f"m{i}", blocks)

        def value(j, i=i):
            # block number in the upper 40 bits, time in the lower 24
            return w.int(f"m{i}.data{j}", 0, (1 << 38) - 1) * (1 << 24) + w.int(f"m{i}.time{j}", 0, (1 << 24) - 1)

        roots.append(build(w, t, maps[i], value, room, hi=1 << 36))
        trees.append(t)
    top = Tree(w, meta, bs, "top", blocks)
    mapping = top.node(LEAF, list(zip(ids, roots)), room)
    det = Tree(w, meta, bs, "det", blocks)
    details = det.node(LEAF, [(d, [w.int(f"det{i}.mapped", 0, TOP), w.int(f"det{i}.trans", 0, TOP), w.int(f"det{i}.times", 0, TOP)])
                              for i, d in enumerate(ids)], 126, 24)
    s = w.region(meta, 0, 512, "sb")
    s.put(0, bytes(512))
    s.uint(32, 8, magic)
    s.uint(40, 4, 2)
    s.uint(320, 8, mapping)
    s.uint(328, 8, details)
    data_unit, meta_unit = units or (bsize // SECTOR, bs // SECTOR)
    s.uint(336, 4, data_unit)
    s.uint(340, 4, meta_unit)
    return meta, data, ids, trees


def h_thin(w, maps, bsize, blocks, sized=False, which=0):
    """Any read of a thin device."""
    from dissect.volume.dm.thin import ThinPool

    meta, data, ids, trees = pool(w, bsize, maps, devs=len(maps))
    meta.seek(0)
    p = must(w, "opening the pool", ThinPool, meta, data)
    size = w.int("size", 1, 1 << 50) if sized else None
    meta.seek(w.int("havoc", 0, 1 << 40))
    dev = must(w, "opening the device", p.open, ids[which], size)
    w.check(dev.details.mapped_blocks == w.int(f"det{which}.mapped", 0, TOP), "mapped blocks of the device")
    meta.seek(w.int("havoc2", 0, 1 << 40))
    data.seek(w.int("havoc3", 0, 1 << 40))

    def oracle(a):
        block, off = a // bsize, a % bsize
        e = find(w, trees[which].entries, block)
        if e is None:
            w.reach("unmapped")
            return ("byte", 0)
        w.reach("mapped")
        j = trees[which].entries.index(e)
        return ("at", data, w.int(f"m{which}.data{j}", 0, (1 << 38) - 1) * bsize + off)

    pos = w.mixed("pos", [(bsize, False)], 1 << 50)
    length = w.int("len", 1, blocks * bsize)
    read_at(w, dev, size, oracle, "read", blocks * bsize, pos=pos, length=length,
            radices=[(bsize, False)])


def h_thin_reject(w, what):
    from dissect.volume.dm.thin import ThinPool
    from dissect.volume.exceptions import DMError

    magic = w.int("magic", 0, TOP) if what == "magic" else MAGIC
    meta, data, ids, _ = pool(w, 65536, [1, 1], devs=2, magic=magic)
    meta.seek(0)
    p, err = w.call(ThinPool, meta, data)
    if what == "magic":
        if w.fork(magic == MAGIC):
            w.check(err is None, "a pool")
            w.reach("pool")
        else:
            w.check(err is not None and isinstance(err, DMError), "not a pool")
            w.reach("no pool")
        return
    if err is not None:
        w.fail(f"opening the pool raised {type(err).__name__}: {err}")
    other = w.int("other", 0, (1 << 24) - 1)
    dev, err = w.call(p.open, other)
    if w.fork(w.or_(*(other == i for i in ids))):
        w.check(err is None, "a known device")
        w.reach("known device")
    else:
        w.check(err is not None and isinstance(err, DMError), "an unknown device")
        w.reach("unknown device")


def jobs_p19(tier):
    out = []

    def add(fn, name, weight=3, **cfg):
        out.append({"name": name, "fn": fn, "cfg": cfg, "weight": weight})

    add("h_thin", "one", 5, maps=[2], bsize=65536, blocks=1)
    add("h_thin", "empty", 5, maps=[0], bsize=65536, blocks=2)
    add("h_thin", "across", 8, maps=[2], bsize=65536, blocks=2)
    add("h_thin", "sized", 8, maps=[1], bsize=131072, blocks=2, sized=True)
    add("h_thin", "across-3", 9, maps=[3], bsize=65536, blocks=3)
    add("h_thin", "tree", 8, maps=[[1, 2]], bsize=65536, blocks=1)
    add("h_thin", "second", 8, maps=[1, 2], bsize=1048576, blocks=1, which=1)
    for what in ("magic", "device"):
        add("h_thin_reject", f"reject-{what}", what=what)
    if tier == "thorough":
        add("h_thin", "across-4", 9, maps=[3], bsize=65536, blocks=4)
        add("h_thin", "sized-2", 9, maps=[2], bsize=65536, blocks=2, sized=True)
        add("h_thin", "deep", 9, maps=[1, [[1, 1], [1, 1]]], bsize=65536 * 3, blocks=1, which=1)
    return out


PROPERTIES = {
    "P18": {
        "jobs": jobs_p18,
        "must_reach": ["found", "absent", "found two"],
        "bounds": "trees of up to three levels and 8 entries (thorough: four levels, 31 entries) in the listed shapes, all 64-bit "
                  "keys and values in any ascending arrangement, node blocks anywhere up to block 2^40 in any order, nodes with room "
                  "for exactly their entries or for 126/252, values of 8 and 24 bytes, blocks of 512 and 4096 bytes, one and two "
                  "levels of keys; two lookups in a row, source left at any position",
        "outside": "larger trees, lookups of the next higher key, checksums (the code verifies none)",
    },
    "P19": {
        "jobs": jobs_p19,
        "must_reach": ["mapped", "unmapped", "pool", "no pool", "known device", "unknown device", "read-compared", "read-clipped-at-end"],
        "bounds": "data block sizes of 64 KiB, 128 KiB, 192 KiB and 1 MiB, up to 4 mapped blocks per device in trees of up to two "
                  "levels, one or two devices with any 24-bit ids, mapped to any data blocks below 2^38 with any time stamps; any "
                  "read starting below 2^50 of up to three blocks (thorough: four), device sizes 1..2^50 or unlimited",
        "outside": "metadata block sizes other than 4096, reads longer than that, a metadata source not positioned at the superblock "
                   "when it is opened",
    },
}
