"""Volume shadow copies: the catalog and reads of stores."""

from __future__ import annotations

from checks.common import must, read_at

BLOCK = 0x4000
GUID = b"\x6b\x87\x08\x38\x76\xc1\x48\x4e\xb7\xae\x04\x04\x6e\x6c\xc7\x52"
FORWARD, OVERLAY, UNUSED = 1, 2, 4
TOP = (1 << 64) - 1
LIMIT = (BLOCK - 128) * 8
"""Number of blocks a bitmap of one block covers."""
META = LIMIT * BLOCK
"""Catalog, headers and lists are from here on, blocks of data before it."""
FREE = 40000
"""Blocks with a free bit in the bitmaps."""


class Disk:
    """A volume with shadow copies; metadata blocks are at free, distinct places."""

    def __init__(self, w):
        self.w = w
        self.fh = w.file("vol", size=1 << 60)
        self.last = META
        self.count = 0

    def place(self):
        """The position of the next metadata block."""
        self.count += 1
        at = self.w.int(f"place{self.count}", META // BLOCK, 1 << 40) * BLOCK
        self.w.assume(at >= self.last)
        self.last = at + BLOCK
        return at

    def block(self, at, kind, following, tag, magic=GUID):
        r = self.w.region(self.fh, at, BLOCK, tag)
        r.put(0, bytes(BLOCK))
        r.put(0, magic)
        r.uint(16, 4, 1)
        r.uint(20, 4, kind)
        r.uint(32, 8, at)
        r.uint(40, 8, following)
        return r

    def chain(self, kind, tag, blocks):
        """A chain of blocks; ``blocks``: one function per block that fills it in."""
        places = [self.place() for _ in blocks]
        for i, (at, fill) in enumerate(zip(places, blocks)):
            fill(self.block(at, kind, places[i + 1] if i + 1 < len(places) else 0, f"{tag}{i}"))
        return places[0]

    def header(self, catalog, magic=GUID):
        w = self.w
        r = w.region(self.fh, 0x1E00, 512, "header")
        r.put(0, bytes(512))
        r.put(0, magic)
        r.uint(16, 4, 1)
        r.uint(20, 4, 1)
        r.uint(48, 8, catalog)
        r.uint(56, 8, w.int("maximum", 0, TOP))
        self.volume_id, self.storage_id = w.bytes("volume_id", 16), w.bytes("storage_id", 16)
        r.put(64, self.volume_id)
        r.put(80, self.storage_id)


def entries(r, off, ident, size, time, lists):
    """The two catalog entries of a store."""
    r.uint(off, 8, 2)
    r.uint(off + 8, 8, size)
    r.put(off + 16, ident)
    r.uint(off + 48, 8, time)
    off += 128
    r.uint(off, 8, 3)
    r.uint(off + 8, 8, lists["blocks"])
    r.put(off + 16, ident)
    r.uint(off + 32, 8, lists["header"])
    r.uint(off + 40, 8, lists["ranges"])
    r.uint(off + 48, 8, lists["bitmap"])
    r.uint(off + 72, 8, lists["previous"])


def store(w, d, k, descs, previous=True, pad=False, bits="00", far=False):
    """Headers and lists of a store; ``descs``: [(original, relative, data, flags, bitmap)]."""

    def head(r):
        r.put(128 + 16, w.bytes(f"copy{k}", 16))
        r.put(128 + 32, w.bytes(f"set{k}", 16))
        r.uint(128 + 64, 2, 4)
        r.put(128 + 66, "ab".encode("utf-16-le"))
        r.uint(128 + 70, 2, 0)

    def fill(items):
        def f(r):
            for i, (orig, rel, data, flags, bitmap) in enumerate(items):
                at = 128 + 32 * i
                r.uint(at, 8, orig)
                r.uint(at + 8, 8, rel)
                r.uint(at + 16, 8, data)
                r.uint(at + 24, 4, flags)
                r.uint(at + 28, 4, sum(bit * (1 << n) for n, bit in bitmap))
        return f

    def bitmap(name, kind):
        def f(r):
            if kind == "1":
                r.put(128, b"\xff" * (BLOCK - 128))
            elif kind == "f":
                # the bits of the blocks from FREE on are free
                for i in range(2):
                    r.uint(128 + (0 if far else FREE // 8) + i, 1, w.int(f"{name}{k}.{i}", 0, 255))
        # the free bits can be in the second block of a bitmap
        return [lambda r: None, f] if far else [f]

    blocks = [fill(descs)]
    if pad:
        # a full block of descriptors that are not in use comes first
        blocks.insert(0, fill([(BLOCK * (i + 1), BLOCK, BLOCK, UNUSED, []) for i in range((BLOCK - 128) // 32)]))
    out = {"header": d.chain(4, f"sh{k}.", [head]), "blocks": d.chain(3, f"bl{k}.", blocks), "ranges": d.chain(5, f"rl{k}.", [lambda r: None]),
           "bitmap": d.chain(6, f"bm{k}.", bitmap("bits", bits[0]))}
    out["previous"] = d.chain(6, f"pb{k}.", bitmap("previous", bits[1])) if previous else 0
    return out


def ident(k):
    return bytes([0x10 + k]) * 16


def spot(w, name):
    """The position of a block of data."""
    return w.int(name, 1, (META // BLOCK) - 1) * BLOCK


# -- the reference -------------------------------------------------------------------------


def value_of(w, vol, stores, k, block, i, unset, active=True):
    """Byte ``i`` of a block as store ``k`` has it (stores from old to new).

    ``unset(block)``: whether the bitmaps of the newest store have no bit for the block.
    """
    base = over = None
    for orig, rel, data, flags, bitmap in stores[k]:
        if flags & UNUSED or (flags & FORWARD and w.fork(orig == rel)):
            continue
        if not w.fork(orig == block * BLOCK):
            continue
        if flags & OVERLAY:
            # the sectors of all overlays of a block are together
            over = (data, bitmap + (over[1] if over else []))
        else:
            base = (rel, data, flags)
    if over is not None and active:
        if w.fork(w.or_(*(w.and_(i // 512 == n, bit == 1) for n, bit in over[1]))):
            w.reach("overlay")
            return ("at", vol, over[0] + i)
    newer = k + 1 < len(stores)
    if base is not None:
        rel, data, flags = base
        if not flags & FORWARD:
            w.reach("stored")
            return ("at", vol, data + i)
        w.reach("forwarded")
        if newer:
            return value_of(w, vol, stores, k + 1, rel // BLOCK, i, unset, False)
        return ("at", vol, rel + i)
    if newer:
        w.reach("newer")
        return value_of(w, vol, stores, k + 1, block, i, unset, False)
    if not any(f == FORWARD and w.fork(w.and_(r == block * BLOCK, o != r)) for o, r, _, f, _ in stores[k]) and unset(block):
        w.reach("zero")
        return ("byte", 0)
    w.reach("volume")
    return ("at", vol, block * BLOCK + i)


# -- P23 ---------------------------------------------------------------------------------


KINDS = {"plain": 0, "over": OVERLAY, "more": OVERLAY, "fwd": FORWARD, "unused": UNUSED}


def h_read(w, plan, which=0, previous=True, pad=False, bits="00", span=1024, free=1, lanes=(3,), far=False):
    """Any read of a store.

    ``plan``: per store, oldest first, the kinds of its block descriptors.
    ``lanes``: where the first block of the read may be in its group of eight.
    """
    from dissect.volume.vss import VSS

    d = Disk(w)
    d.last = META * (2 if far else 1)
    stores, lists = [], []
    fwds = []
    for k, kinds in enumerate(plan):
        descs = []
        for j, kind in enumerate(kinds):
            flags = KINDS[kind]
            bitmap = []
            if kind == "over":
                # some of the sectors, some of them free
                bitmap = [(n, 1) for n in (20, 21)] + [(n, w.int(f"bit{k}.{j}.{n}", 0, 1)) for n in [31, 0, 7][:free]]
            o, rel, data = spot(w, f"orig{k}.{j}"), spot(w, f"rel{k}.{j}"), spot(w, f"data{k}.{j}")
            if kind == "more":
                # further sectors of the block that was overlaid last
                o, _, data, _, _ = next(x for x in descs[::-1] if x[3] & OVERLAY)
                bitmap = [(n, 1) for n in w.pick(f"more{k}.{j}", [[22], [0, 31], [20, 22]])]
            elif kind == "unused":
                # a descriptor that is not in use may have had other flags before
                flags |= w.pick(f"was{k}.{j}", [0, FORWARD, OVERLAY])
                bitmap = [(n, 1) for n in range(32)]
            else:
                # a block is described once, and once overlaid; forwarding chains within a list are outside
                for kind2, o2, rel2 in descs_of(descs):
                    if (kind == "over") == (kind2 == OVERLAY):
                        w.assume(o != o2)
                    if kind2 == FORWARD and kind != "over":
                        w.assume(rel != rel2)
            descs.append((o, rel, data, flags, bitmap))
        stores.append(descs)
        lists.append(store(w, d, k, descs, previous, pad, bits, far))
    size = w.int("size", 1, META * (2 if far else 1))
    base = LIMIT if far else FREE
    times = []
    for k in range(len(plan)):
        t = w.int(f"time{k}", 0, TOP)
        if times:
            w.assume(t > times[-1])
        times.append(t)
    order = w.pick("order", [list(range(len(plan))), list(range(len(plan)))[::-1]] if len(plan) > 1 else [[0]])

    def catalog(r):
        for n, k in enumerate(order):
            entries(r, 128 + 256 * n, ident(k), size, times[k], lists[k])

    d.header(d.chain(2, "cat", [catalog]))
    d.fh.seek(w.int("havoc", 0, 1 << 40))
    vss = must(w, "opening", VSS, d.fh)
    w.check(vss.volume_identifier == w.uuid(d.volume_id, le=True), "volume id")
    w.check(vss.store_volume_identifier == w.uuid(d.storage_id, le=True), "storage volume id")
    got = vss.catalog.stores
    w.check(len(got) == len(plan), "number of stores")
    for k, s in enumerate(got):
        w.check(s.creation_time == times[k], "stores from old to new")
        w.check(s.copy_identifier == w.uuid(w.bytes(f"copy{k}", 16), le=True), "copy id")
        w.check(s.copy_set_identifier == w.uuid(w.bytes(f"set{k}", 16), le=True), "copy set id")
        w.check(s.volume_size == size, "size")
    fh = must(w, "opening the store", got[which].open)
    d.fh.seek(w.int("havoc2", 0, 1 << 40))

    def clear(name, kind, block):
        if kind == "f":
            n = w.concrete(block - base)
            return w.fork((w.int(f"{name}{len(plan) - 1}.{n // 8}", 0, 255) >> (n % 8)) % 2 == 0)
        return kind == "0"

    def unset(block):
        return clear("bits", bits[0], block) and (not previous or clear("previous", bits[1], block))

    def oracle(a):
        return value_of(w, d.fh, stores, which, a // BLOCK, a % BLOCK, unset)

    radices = [(512, False), (BLOCK // 512, False), (8, False)]
    pos = w.mixed("pos", radices, META * (2 if far else 1) - 2 * BLOCK)
    w.assume(w.or_(*(pos // BLOCK % 8 == n for n in lanes)))
    if "f" in bits:
        w.assume(w.and_(pos >= base * BLOCK, pos <= (base + 14) * BLOCK))
    else:
        w.assume(pos >= BLOCK)
    read_at(w, fh, size, oracle, "read", span, pos=pos, radices=radices)


def descs_of(descs):
    return [(f, o, rel) for o, rel, _, f, _ in descs if not f & UNUSED]


def h_equal(w):
    """Descriptors are equal if they record the same."""
    from dissect.volume.vss import BlockDescriptor

    fields = [(0, 8), (8, 8), (16, 8), (24, 4), (28, 4)]
    # they differ in one field at most
    odd = w.pick("odd", [None, *range(len(fields))])
    values, made = [], []
    for n in "ab":
        r = w.region(w.file(n, size=64), 0, 32, "d")
        for i, (k, size) in enumerate(fields):
            tag = f"{n if i == odd else ''}field{k}"
            raw = w.bytes(tag, size) if k != 24 else bytes([w.pick(tag, list(range(8))), 0, 0, 0])
            r.put(k, raw)
            if i == odd:
                values.append(raw)
        made.append(must(w, "decoding", BlockDescriptor, w.raw(r, 0, 32)))
    a, b = made
    got, err = w.call(lambda: a == b)
    if err is not None:
        w.fail(f"comparing raised {type(err).__name__}: {err}")
    same = odd is None or values[0] == values[1]
    if w.fork(same):
        w.check(got, "equal")
        w.reach("equal descriptors")
    else:
        w.check(w.not_(got), "not equal")
    other, err = w.call(lambda: a == 5)
    w.check(err is None and other is False, "not a descriptor")


def h_reject_store(w, what):
    """A store, the header or a list of which is not one."""
    from dissect.volume.exceptions import Error
    from dissect.volume.vss import VSS

    d = Disk(w)
    magic, kind = w.bytes("magic", 16), w.int("kind", 0, 9)
    lists = {}
    for name, record in (("header", 4), ("blocks", 3), ("ranges", 5), ("bitmap", 6), ("previous", 6)):
        lists[name] = d.place()
        r = d.block(lists[name], kind if what == f"{name} type" else record, 0, name, magic if what == name else GUID)
        if name == "header":
            for k, at in enumerate((16, 32)):
                r.put(128 + at, w.bytes(f"id{k}", 16))
    at = d.place()
    entries(d.block(at, 2, 0, "cat"), 128, ident(0), META, w.int("time", 0, TOP), lists)
    d.header(at)
    good = magic == GUID if " " not in what else kind == {"blocks type": 3, "bitmap type": 6, "previous type": 6}[what]
    vss, err = w.call(VSS, d.fh)
    if what != "header" and err is None:
        fh = must(w, "opening the store", vss.catalog.stores[0].open)
        must(w, "seek", fh.seek, w.int("block", 1, 100000) * BLOCK)
        _, err = w.call(fh.read, w.int("length", 1, BLOCK))
    if w.fork(good):
        w.check(err is None, "a store")
        w.reach("good store")
    else:
        w.check(err is not None and isinstance(err, Error), "not a store")
        w.reach("bad store")


def h_reject(w, what):
    """Sources without shadow copies."""
    from dissect.volume.exceptions import Error
    from dissect.volume.vss import VSS

    d = Disk(w)
    catalog = 0 if what == "offset" else d.place()
    magic = w.bytes("magic", 16)
    if what != "offset":
        d.block(catalog, 2, 0, "cat", magic if what == "catalog" else GUID)
    d.header(catalog, magic if what == "header" else GUID)
    vss, err = w.call(VSS, d.fh)
    if what != "offset" and w.fork(magic == GUID):
        w.check(err is None, "shadow copies")
        w.check(len(vss.catalog.stores) == 0, "no stores")
        w.reach("empty")
    else:
        w.check(err is not None and isinstance(err, Error), "no shadow copies")
        w.reach("rejected")


def jobs_p23(tier):
    out = []

    def add(fn, name, weight=3, **cfg):
        out.append({"name": name, "fn": fn, "cfg": cfg, "weight": weight, "max_ticks": 2000000})

    for kind in ("plain", "over", "fwd", "unused"):
        add("h_read", f"one-{kind}", plan=[[kind]])
    add("h_read", "one-empty", plan=[[]], lanes=list(range(8)), span=BLOCK)
    add("h_read", "one-no-previous", plan=[[]], previous=False)
    add("h_read", "one-bits-11", plan=[[]], bits="11")
    add("h_read", "one-bits-01", plan=[[]], bits="01")
    add("h_read", "one-bits-free", 6, plan=[[]], bits="ff", lanes=[0, 7])
    add("h_read", "one-bits-free-no-previous", 6, plan=[[]], bits="ff", previous=False)
    add("h_read", "one-bits-far", 6, plan=[[]], bits="ff", far=True)
    add("h_read", "two-bits-free", 6, plan=[["plain"], []], bits="ff")
    add("h_read", "plain-over", 5, plan=[["plain", "over"]])
    add("h_read", "over-plain", 5, plan=[["over", "plain"]])
    add("h_read", "over-more", 5, plan=[["over", "more"]], free=0)
    add("h_read", "plain-plain", 5, plan=[["plain", "plain"]])
    add("h_read", "chain", 5, plan=[["plain"]], pad=True)
    add("h_read", "two-plain", 6, plan=[["plain"], ["plain"]])
    add("h_read", "two-over", 6, plan=[["over"], ["plain"]])
    add("h_read", "two-over-newer", 6, plan=[["plain"], ["over"]])
    add("h_read", "two-fwd", 6, plan=[["fwd"], ["plain"]])
    add("h_read", "two-newest", 6, plan=[["plain"], ["plain"]], which=1)
    if tier == "thorough":
        add("h_read", "plain-over-more", 6, plan=[["plain", "over", "more"]], free=0)
        for kinds in (["over"], ["plain", "over"], ["over", "plain"]):
            add("h_read", "one-free-" + "-".join(kinds), 9, plan=[kinds], free=3)
        add("h_read", "two-free", 9, plan=[["over"], ["plain"]], free=2)
        add("h_read", "three", 9, plan=[["plain"], ["fwd"], ["plain"]])
        add("h_read", "three-mid", 9, plan=[["plain"], ["over", "plain"], ["plain"]], which=1)
        add("h_read", "wide", 9, plan=[["plain", "plain"]], span=2 * BLOCK)
        add("h_read", "fwd-plain", 9, plan=[["fwd", "plain"]])
    add("h_equal", "equal")
    for what in ("header", "blocks", "bitmap", "previous", "blocks type", "bitmap type", "previous type"):
        add("h_reject_store", f"reject-store-{what.replace(' ', '-')}", what=what)
    for what in ("header", "catalog", "offset"):
        add("h_reject", f"reject-{what}", what=what)
    return out


PROPERTIES = {
    "P23": {
        "jobs": jobs_p23,
        "must_reach": ["overlay", "stored", "forwarded", "newer", "volume", "zero", "empty", "rejected", "good store", "bad store", "equal descriptors", "read-compared", "read-clipped-at-end"],
        "bounds": "1-2 stores (thorough 3) with 0-2 block descriptors each, of every kind (stored, forwarding, overlay with 2 set and 1-3 free sector bits, unused with any former kind) and free original, relative and data blocks below block 130048; catalog in either order; lists of 1-2 blocks at free places; bitmaps all clear, all set, or with 16 free bits (in their first or second block); ids, times and size free; a store header, list or bitmap with any other identifier or (lists, bitmaps) record type; reads of up to 1 KiB (one job 16 KiB, thorough 32 KiB) anywhere but the first block, including across the end",
        "outside": "blocks beyond the second bitmap block; stores with one catalog entry (refused by the code); several descriptors for one block other than a plain one and overlays with one place of data, forwarding to a block another forwarder forwards to (the code rewrites those in an order-dependent way); unused data in the first descriptor list block when chained; range lists (not used for reading)",
    },
}
