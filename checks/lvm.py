"""LVM2: physical volumes, volume group metadata, logical volumes."""

from __future__ import annotations

from checks.common import must, read_at
from checks.dm import LEAF, MAGIC, Tree, build, find

SECTOR = 512
TOP = (1 << 64) - 1
U32 = (1 << 32) - 1
IDS = ["2Svcy0cRH23Xrz87FvzNUI9CoIYcoyql", "Kd81jXQmZ0a7bLr2PpVvT4nYc6HhSs9E", "q3WnU5yGgB1tMf0oRi8DkZxJ7e2LaCvN",
       "Hx7Qe4RkWm2sYt9ZpAd1uJc5VbNgLf3K"]
MDA_MAGIC = b" LVM2 x[5A%r0N*>"
ONE_LINE = ("status", "flags", "tags", "descendants")


def dashed(uuid):
    cuts = (0, 6, 10, 14, 18, 22, 26, 32)
    return "-".join(uuid[a:b] for a, b in zip(cuts, cuts[1:]))


# -- writing metadata ----------------------------------------------------------------------


def pieces(w, d, depth=0, style=None):
    """The text of a metadata dictionary, as a list of byte strings."""
    style = style or {}
    out = []
    tab = b"\t" * depth

    def value(v):
        if isinstance(v, str):
            return [b'"' + v.replace("\\", "\\\\").replace('"', '\\"').encode() + b'"']
        if isinstance(v, tuple):
            # text made of symbolic characters that need no escaping
            return [b'"', *v, b'"']
        return [w.numeral(v).encode()]

    for k, v in d.items():
        out.append(style.get("line", b""))
        if isinstance(v, dict):
            out += [b"\n", tab, k.encode(), b" {", style.get("section", b""), b"\n", *pieces(w, v, depth + 1, style), tab, b"}\n"]
            continue
        out += [tab, k.encode(), b" = "]
        if isinstance(v, list):
            wide = style.get("arrays", k not in ONE_LINE) and v
            out.append(b"[")
            for i, x in enumerate(v):
                if wide and i % 2 == 0:
                    out.append(b"\n\t" + tab)
                out += value(x)
                if i + 1 < len(v):
                    out.append(b", ")
            out.append(b"\n" + tab + b"]" if wide else b"]")
        else:
            out += value(v)
        out += [style.get("comment", b""), b"\n"]
    return out


def same(w, got, want, path=""):
    """``got`` holds exactly the keys and values of ``want`` (keys with a leading underscore aside)."""
    if isinstance(want, dict):
        w.check(isinstance(got, dict), f"{path}: a section")
        keys = [k for k in got if isinstance(k, str) and not k.startswith("_")]
        w.check(len(got) - sum(isinstance(k, str) and k.startswith("_") for k in got) == len(want) and set(keys) == set(want),
                f"{path}: keys")
        for k, v in want.items():
            same(w, got[k], v, f"{path}/{k}")
    elif isinstance(want, (list, tuple)) and not (isinstance(want, tuple) and want and is_bytes(want[0])):
        w.check(isinstance(got, (list, tuple)) and len(got) == len(want), f"{path}: a list")
        for i, (a, b) in enumerate(zip(got, want)):
            same(w, a, b, f"{path}[{i}]")
    elif isinstance(want, tuple):
        same_text(w, got, want, path)
    elif want is None:
        w.check(got is None, f"{path}: absent")
    else:
        w.check(got == want, f"{path}: value")


def is_bytes(x):
    return isinstance(x, bytes) or type(x).__name__ == "SymBytes"


def same_text(w, got, parts, path):
    chars = [b for p in parts for b in p]
    w.check(hasattr(got, "__len__") and len(got) == len(chars), f"{path}: length of the text")
    for i, c in enumerate(chars):
        w.check(got[i] == w.char(c), f"{path}: text")


# -- writing devices -------------------------------------------------------------------------


def put_all(region, at, parts):
    for p in parts:
        region.put(at, p)
        at += len(p)


def cut(parts, n):
    """The first ``n`` bytes, and the rest."""
    a, b = [], []
    for p in parts:
        k = max(0, min(n, len(p)))
        n -= k
        if k:
            a.append(p[:k])
        if k < len(p):
            b.append(p[k:])
    return a, b


def mda(w, fh, tag, start, size, texts):
    """A metadata area; ``texts``: [(parts, offset or None, cut or None, flags)]."""
    h = w.region(fh, start, SECTOR, f"{tag}.mda")
    h.put(0, bytes(SECTOR))
    h.uint(0, 4, w.int(f"{tag}.sum", 0, U32))
    h.put(4, MDA_MAGIC)
    h.uint(20, 4, 1)
    h.uint(24, 8, start)
    h.uint(32, 8, size)
    for i, (parts, offset, first, flags) in enumerate(texts):
        n = sum(len(p) for p in parts) + 1
        at = 40 + 24 * i
        if first is not None:
            # the text continues behind the header of the area
            offset = size - first
            a, b = cut([*parts, b"\0"], first)
            r = w.region(fh, start + offset, first, f"{tag}.text{i}a")
            put_all(r, 0, a)
            r = w.region(fh, start + SECTOR, n - first, f"{tag}.text{i}b")
            put_all(r, 0, b)
        else:
            r = w.region(fh, start + offset, n, f"{tag}.text{i}")
            put_all(r, 0, [*parts, b"\0"])
        h.uint(at, 8, offset)
        h.uint(at + 8, 8, n)
        h.uint(at + 16, 4, w.int(f"{tag}.tsum{i}", 0, U32))
        h.uint(at + 20, 4, flags)


def label(w, fh, tag, uuid, size, datas, mdas, sector=0, header=32):
    """Label and physical volume header; ``datas``, ``mdas``: [(offset, size)]."""
    for i in range(sector):
        r = w.region(fh, i * SECTOR, 32, f"{tag}.before{i}")
        w.assume(w.not_(w.raw(r, 0, 8) == b"LABELONE"))
    r = w.region(fh, sector * SECTOR, SECTOR, f"{tag}.label")
    r.put(0, bytes(SECTOR))
    r.put(0, b"LABELONE")
    r.uint(8, 8, sector)
    r.uint(16, 4, w.int(f"{tag}.crc", 0, U32))
    r.uint(20, 4, header)
    r.put(24, b"LVM2 001")
    at = header
    r.put(at, uuid)
    r.uint(at + 32, 8, size)
    at += 40
    for areas in (datas, mdas):
        for off, n in areas:
            r.uint(at, 8, off)
            r.uint(at + 8, 8, n)
            at += 16
        at += 16


# -- P20 ---------------------------------------------------------------------------------


def h_device(w, sector=0, header=32, mdas=("text",), datas=1, area=0, reads=True):
    """One physical volume, looked at on its own."""
    from dissect.volume.lvm.physical import LVM2Device

    fh = w.file("pv", size=1 << 60)
    uuid = w.bytes("uuid", 32)
    for b in uuid:
        w.assume(w.or_(w.and_(b >= 48, b <= 57), w.and_(b >= 65, b <= 90), w.and_(b >= 97, b <= 122)))
    size = w.int("size", 1 << 22, 1 << 50) * SECTOR
    first = w.int("data", 1 << 21, 1 << 40) * SECTOR
    w.assume(first < size)
    limit = size - first
    if area:
        limit = w.int("area", 1, 1 << 50) * SECTOR
        w.assume(first + limit <= size)
    want = None
    spec = {"contents": "Text Format Volume Group", "version": 1, "description": "a { b = c } # d",
            "vg": {"id": "x", "seqno": w.int("seqno", 0, U32), "status": ["READ", "WRITE"]}}
    last, spots = 4096, []
    for i, kind in enumerate(mdas):
        start = w.int(f"start{i}", 8, 1 << 19) * SECTOR
        w.assume(start >= last)
        n = w.int(f"mda{i}", 8, 1 << 11) * SECTOR
        last = start + n
        w.assume(last <= 1 << 30)
        parts = pieces(w, spec)
        length = sum(len(p) for p in parts) + 1
        if kind == "wrap":
            texts = [(parts, None, w.pick(f"cut{i}", [1, 2, 37, length - 1, length]), 0)]
        elif kind == "none":
            texts = []
        else:
            off = w.int(f"text{i}", SECTOR, 1 << 20)
            w.assume(off + length <= n)
            texts = [(parts if kind == "text" else pieces(w, {"contents": "old"}), off, None, int(kind == "ignored"))]
        mda(w, fh, f"m{i}", start, n, texts)
        spots.append((start, n))
        if kind in ("text", "wrap") and want is None:
            want = spec
        w.reach(kind)
    label(w, fh, "pv", uuid, size, [(first, limit if area else 0)] + [(w.int("more", 1, TOP), 0)] * (datas - 1) if datas else [],
          spots, sector, header)
    fh.seek(w.int("havoc", 0, 1 << 40))
    dev, err = w.call(LVM2Device, fh)
    if datas != 1:
        w.check(err is not None, "a physical volume has exactly one data area")
        w.reach("areas")
        return
    if err is not None:
        w.fail(f"opening raised {type(err).__name__}: {err}")
    same_text(w, dev.id, [uuid], "id")
    w.check(dev.size == size, "size")
    fh.seek(w.int("havoc2", 0, 1 << 40))
    got, err = w.call(lambda: dev.metadata)
    if err is not None:
        w.fail(f"metadata raised {type(err).__name__}: {err}")
    if want is None:
        w.check(got is None, "no metadata")
        w.reach("no metadata")
    else:
        w.check(got is not None, "metadata")
        same(w, got, want)
        w.reach("metadata")
    if not reads:
        return
    fh.seek(w.int("havoc3", 0, 1 << 40))
    s = must(w, "open", dev.open)
    pos, n = w.int("pos", 0, 1 << 50), w.int("len", 1, 1 << 16)
    w.assume(pos + n <= limit)
    read_at(w, s, None, lambda a: ("at", fh, first + a), "read", 1 << 16, pos=pos, length=n)
    at, k = w.int("at", 0, 1 << 42), w.int("count", 1, 64)
    w.assume((at + k) * SECTOR <= limit)
    got = must(w, "read_sectors", dev.read_sectors, at, k)
    w.check_bytes(got, k * SECTOR, lambda i: ("at", fh, first + at * SECTOR + i), "sectors")


def h_no_label(w):
    """The label is looked for in the first four sectors."""
    from dissect.volume.exceptions import LVM2Error
    from dissect.volume.lvm.physical import LVM2Device

    fh = w.file("pv", size=1 << 60)
    for i in range(4):
        r = w.region(fh, i * SECTOR, 32, f"s{i}")
        w.assume(w.not_(w.raw(r, 0, 8) == b"LABELONE"))
    label_at = w.region(fh, 4 * SECTOR, 32, "s4")
    label_at.put(0, b"LABELONE")
    dev, err = w.call(LVM2Device, fh)
    w.check(err is not None and isinstance(err, LVM2Error), "no label")
    w.reach("no label")


def jobs_p20(tier):
    out = []

    def add(fn, name, weight=3, **cfg):
        out.append({"name": name, "fn": fn, "cfg": cfg, "weight": weight})

    for s in range(4):
        add("h_device", f"sector-{s}", sector=s)
    add("h_device", "header-64", header=64)
    add("h_device", "area", area=1)
    add("h_device", "wrap", mdas=["wrap"], reads=False)
    for kinds in (["none"], [], ["text", "text"], ["ignored", "text"], ["none", "wrap"], ["ignored"], ["none", "ignored"]):
        add("h_device", "mdas-" + ("-".join(kinds) or "0"), mdas=kinds, reads=False)
    add("h_device", "areas-0", datas=0)
    add("h_device", "areas-2", datas=2)
    add("h_no_label", "no-label")
    if tier == "thorough":
        for s in range(4):
            for h in (32, 40, 128, 256):
                add("h_device", f"sector-{s}-{h}", sector=s, header=h, mdas=["ignored", "wrap"])
    return out


# -- P21 ---------------------------------------------------------------------------------


def full_group(w, n=2):
    """A volume group with every kind of field."""

    def num(name, hi=TOP):
        return w.int(name, 0, hi)

    pvs = {f"pv{i}": {"id": dashed(IDS[i]), "device": f"/dev/sd{i}", "status": ["ALLOCATABLE"], "flags": [], "dev_size": num(f"dev_size{i}"),
                      "pe_start": num(f"pe_start{i}"), "pe_count": num(f"pe_count{i}"), "ba_start": num(f"ba{i}")} for i in range(n)}
    lvs = {
        "root": {"id": dashed(IDS[0][::-1]), "status": ["READ", "WRITE", "VISIBLE"], "flags": [], "creation_time": num("lv_time", U32),
                 "creation_host": "host", "segment_count": 2,
                 "segment1": {"start_extent": 0, "extent_count": num("count1"), "type": "striped", "stripe_count": 1,
                              "stripes": ["pv0", num("pe1")]},
                 "segment2": {"start_extent": num("start2"), "extent_count": num("count2"), "type": "striped+X", "stripe_count": 2,
                              "stripe_size": num("ssize"), "stripes": ["pv0", num("pe2"), "pv1", num("pe3")]}},
        "mir": {"id": dashed(IDS[1][::-1]), "status": ["READ"], "flags": [], "segment_count": 1,
                "segment1": {"start_extent": num("start3"), "extent_count": num("count3"), "type": "mirror", "mirror_count": 2,
                             "mirror_log": "mlog", "region_size": num("rsize"), "mirrors": ["mim0", num("le0"), "mim1", num("le1")]}},
        "thin": {"id": "t", "status": ["READ", "WRITE", "VISIBLE"], "flags": [], "segment_count": 1,
                 "segment1": {"start_extent": 0, "extent_count": num("count4"), "type": "thin", "thin_pool": "pool",
                              "transaction_id": num("trans"), "device_id": num("devid")}},
    }
    return {"id": dashed(IDS[2][::-1]), "seqno": num("seqno"), "format": "lvm2", "status": ["RESIZEABLE", "READ", "WRITE"], "flags": [],
            "extent_size": num("extent_size"), "max_lv": num("max_lv"), "max_pv": num("max_pv"), "metadata_copies": 0,
            "physical_volumes": pvs, "logical_volumes": lvs,
            "historical_logical_volumes": {"old": {"id": "h", "name": "gone", "creation_time": num("h_time", U32),
                                                   "removal_time": num("r_time", U32)}}}


def root_of(vg, time, name="vg0"):
    return {"contents": "Text Format Volume Group", "version": 1, "description": "Created *after* executing 'vgs # {'",
            "creation_host": "host", "creation_time": time, name: vg}


def pv_file(w, i, root, uuid=None, first=1 << 22, style=None, length=1 << 62):
    """A physical volume with one metadata area holding ``root`` (or no area at all)."""
    fh = w.file(f"pv{i}", size=length)
    size = w.int(f"header_size{i}", 1 << 13, 1 << 50) * SECTOR
    if root is not None:
        parts = pieces(w, root, 0, style)
        mda(w, fh, f"m{i}", 4096, 1044480, [(parts, SECTOR, None, 0)])
    label(w, fh, f"p{i}", (uuid or IDS[i]).encode(), size, [(first, 0)], [(4096, 1044480)] if root is not None else [], 1)
    return fh, size


def h_group(w, style=None):
    """Every field of the metadata shows in the objects."""
    from dissect.volume.lvm import LVM2

    vg, time = full_group(w), w.int("time", 1, U32)
    style = {"plain": {}, "comments": {"comment": b"\t# 4 Megabytes", "section": b" # all of it"},
             "short": {"arrays": False}, "lines": {"line": b'# Written by "vgs" {\n\n  # = }\n'}}[style or "plain"]
    files = [pv_file(w, i, root_of(vg, time), style=style)[0] for i in range(2)]
    lvm = must(w, "opening", LVM2, files)
    w.check(lvm.contents == "Text Format Volume Group" and lvm.version == 1 and lvm.creation_host == "host", "header")
    w.check(lvm.description == "Created *after* executing 'vgs # {'", "description")
    w.check(lvm.creation_time == w.time(time * 1000000), "creation time")
    g = lvm.vg
    w.check(g.name == "vg0", "name of the group")
    for k in ("id", "seqno", "format", "status", "flags", "extent_size", "max_lv", "max_pv", "metadata_copies"):
        same(w, getattr(g, k), vg[k], k)
    for k in ("system_id", "allocation_policy", "profile", "tags", "lock_type", "lock_args"):
        w.check(getattr(g, k) is None, f"{k}: absent")
    w.check([p.name for p in g.pv] == list(vg["physical_volumes"]), "physical volumes")
    for p in g.pv:
        d = vg["physical_volumes"][p.name]
        for k in ("id", "status", "pe_start", "pe_count", "dev_size", "device", "ba_start"):
            same(w, getattr(p, k), d[k], f"{p.name}.{k}")
        w.check(p.ba_size is None and p.tags is None and p.vg is g, f"{p.name}: other fields")
    w.check([v.name for v in g.lv] == list(vg["logical_volumes"]), "logical volumes")
    for v in g.lv:
        d = vg["logical_volumes"][v.name]
        for k in ("id", "status", "flags", "segment_count"):
            same(w, getattr(v, k), d[k], f"{v.name}.{k}")
        w.check(v.is_visible == ("VISIBLE" in d["status"]), f"{v.name}: visible")
        w.check(v.creation_host == d.get("creation_host"), f"{v.name}: creation host")
        t = d.get("creation_time")
        if t is None:
            w.check(v.creation_time is None, f"{v.name}: creation time")
        elif w.fork(t != 0):
            w.check(v.creation_time == w.time(t * 1000000), f"{v.name}: creation time")
        segs = {k: s for k, s in d.items() if isinstance(s, dict)}
        w.check([s.name for s in v.segments] == list(segs), f"{v.name}: segments")
        w.check(v.type == list(segs.values())[0]["type"], f"{v.name}: type")
        for s in v.segments:
            d = segs[s.name]
            for k, x in d.items():
                if k in ("stripes", "mirrors"):
                    x = [tuple(x[i : i + 2]) for i in range(0, len(x), 2)]
                    got = getattr(s, k)
                    w.check(len(got) == len(x), f"{v.name}.{s.name}.{k}")
                    for a, b in zip(got, x):
                        w.check(a[0] == b[0], f"{v.name}.{s.name}.{k}: name")
                        w.check(a[1] == b[1], f"{v.name}.{s.name}.{k}: extent")
                elif k == "type":
                    w.check([s.type, *s.flags] == x.split("+"), f"{v.name}.{s.name}: type")
                else:
                    same(w, getattr(s, k), x, f"{v.name}.{s.name}.{k}")
    h = g.historical_logical_volumes["old"]
    w.check(h.id == "h" and h.name == "gone" and h.origin is None, "historical volume")
    for k in ("creation_time", "removal_time"):
        t = w.int("h_time" if k == "creation_time" else "r_time", 0, U32)
        if w.fork(t != 0):
            w.check(getattr(h, k) == w.time(t * 1000000), f"historical volume: {k}")
    w.reach("group")


def h_newest(w, have, order):
    """Physical volumes may hold no metadata or metadata of different ages; the newest counts.

    ``have``: per physical volume whether it has a metadata area.
    """
    from dissect.volume.exceptions import LVM2Error
    from dissect.volume.lvm import LVM2

    files, best = [], None
    n = len(have)
    for i, h in enumerate(have):
        seq = w.int(f"seq{i}", 0, U32)
        if h:
            vg = {"id": "x", "seqno": seq, "status": ["READ"], "flags": [], "extent_size": 8192, "max_lv": seq, "max_pv": 0,
                  "physical_volumes": {f"pv{k}": {"id": dashed(IDS[k]), "status": [], "flags": [], "pe_start": 2048, "pe_count": 1}
                                       for k in range(n)}, "logical_volumes": {}}
            if i in order:
                best = seq if best is None else w.ite(seq > best, seq, best)
        files.append(pv_file(w, i, root_of(vg, seq) if h else None)[0])
    lvm, err = w.call(LVM2, [files[i] for i in order])
    if best is None:
        w.check(err is not None and isinstance(err, LVM2Error), "no metadata anywhere")
        w.reach("none")
        return
    if err is not None:
        w.fail(f"opening raised {type(err).__name__}: {err}")
    w.check(lvm.vg.seqno == best, "the newest metadata is used")
    w.check(lvm.vg.max_lv == best, "the newest metadata is used for all fields")
    w.reach("newest")
    for i in range(n):
        p = lvm.vg.physical_volumes[f"pv{i}"]
        w.check((p.dev is not None) == (i in order), "physical volumes are attached when they are there")
        if i in order:
            w.check(p.dev.fh is files[i], "physical volumes are attached by id")
            s = must(w, "opening a physical volume", p.open)
            k = w.int("byte", 0, 1 << 20)
            s.seek(k)
            w.check_bytes(must(w, "reading a physical volume", s.read, 1), 1, lambda j: ("at", files[i], (1 << 22) + k + j), "physical volume")
        else:
            _, err = w.call(p.open)
            w.check(err is not None and isinstance(err, LVM2Error), "a missing physical volume cannot be opened")
            w.reach("missing")


# Segment kinds besides linear, striped, mirror and thin: types, fields that are always there, fields that are left out when
# not set.  A lower-case name in front is a text.
RAID = ["raid1", "raid10", "raid10_near", "raid4", "raid5", "raid5_n", "raid5_la", "raid5_ls", "raid5_ra", "raid5_rs", "raid6",
        "raid6_nc", "raid6_nr", "raid6_zr", "raid6_la_6", "raid6_ls_6", "raid6_ra_6", "raid6_rs_6", "raid6_n_6"]
KINDS = {
    "raid": (RAID, "device_count raids:pairs", "region_size stripe_size writebehind min_recovery_rate max_recovery_rate data_copies data_offset"),
    "raid0": (["raid0", "raid0_meta"], "stripe_count raid0_lvs:names", "stripe_size"),
    "snapshot": (["snapshot"], "chunk_size origin:text", "cow_store:text merging_store:text"),
    "pool": (["thin-pool"], "metadata:text pool:text transaction_id chunk_size", "discards:text zero_new_blocks crop_metadata"),
    "cache": (["cache"], "cache_pool:text origin:text", "cleaner chunk_size cache_mode:text policy:text policy_settings:section metadata_format "
              "metadata_start metadata_len data_start data_len metadata_id:text data_id:text"),
    "cache-pool": (["cache-pool"], "data:text metadata:text", "metadata_format chunk_size cache_mode:text policy:text policy_settings:section"),
    "writecache": (["writecache"], "origin:text writecache:text writecache_block_size", "high_watermark low_watermark writeback_jobs "
                   "autocommit_blocks autocommit_time fua nofua cleaner max_age metadata_only pause_writeback "
                   "writecache_setting_key:text writecache_setting_val:text"),
    "integrity": (["integrity"], "origin:text data_sectors mode:text tag_size block_size internal_hash:text", "meta_dev:text recalculate "
                  "journal_sectors interleave_sectors buffer_sectors journal_watermark commit_time bitmap_flush_interval sectors_per_bit"),
    "vdo": (["vdo"], "vdo_pool:text vdo_offset", ""),
    "vdo-pool": (["vdo-pool"], "data:text header_size virtual_extents minimum_io_size block_map_cache_size_mb block_map_era_length "
                 "index_memory_size_mb max_discard slab_size_mb ack_threads bio_threads bio_rotation cpu_threads hash_zone_threads "
                 "logical_threads physical_threads", "use_compression use_deduplication use_metadata_hints use_sparse_index write_policy:text"),
    "bare": (["error", "free", "zero", "another"], "", "reshape_count data_copies"),
}


def kind_segment(w, kind, which, every=False):
    """A segment of the kind and the fields it has, with those of the optional ones that ``which`` selects."""
    _, fixed, optional = KINDS[kind]
    names = fixed.split() + [f for i, f in enumerate(optional.split()) if which in (i, "all")]
    seg = {"start_extent": w.int("start", 0, TOP), "extent_count": w.int("count", 0, TOP)}
    for f in names:
        name, _, form = f.partition(":")
        if form == "text":
            seg[name] = f"the {name}"
        elif form == "pairs":
            seg[name] = [f"im{i}" for i in range(2 * 3)]
        elif form == "names":
            seg[name] = [f"im{i}" for i in range(3)]
        elif form == "section":
            seg[name] = {"migration_threshold": w.int(name, 0, TOP)}
        else:
            seg[name] = w.int(name, 0, TOP)
    return seg, [f.partition(":")[0] for i, f in enumerate(optional.split()) if which not in (i, "all")]


def kind_group(w, lv):
    return {"id": "x", "seqno": 1, "status": ["READ"], "flags": [], "extent_size": 8, "max_lv": 0, "max_pv": 0,
            "physical_volumes": {"pv0": {"id": dashed(IDS[0]), "status": [], "flags": [], "pe_start": 2048, "pe_count": 1}},
            "logical_volumes": {"a": lv}}


def h_kind(w, kind):
    """The fields of segments that are not read from; what is not set is not in the text."""
    from dissect.volume.lvm import LVM2

    types, _, optional = KINDS[kind]
    which = w.pick("which", ["all", "none", *range(len(optional.split()))])
    seg, absent = kind_segment(w, kind, which)
    seg["type"] = w.pick("type", types) if which == "all" else types[0]
    flags = w.pick("flags", [[], ["X"], ["X", "Y"]])
    lv = {"id": "y", "status": ["READ"], "flags": [], "segment_count": 1, "segment1": {**seg, "type": "+".join([seg["type"], *flags])}}
    fh, _ = pv_file(w, 0, root_of(kind_group(w, lv), 1))
    lvm = must(w, "opening", LVM2, fh)
    v = lvm.vg.logical_volumes["a"]
    w.check(len(v.segments) == 1 and v.segments[0].lv is v, "one segment")
    s = v.segments[0]
    for k, x in seg.items():
        if k == "raids":
            w.check([tuple(p) for p in s.raids] == [("im0", "im1"), ("im2", "im3"), ("im4", "im5")], "raids")
        else:
            same(w, getattr(s, k), x, k)
    w.check(list(s.flags) == flags and v.type == seg["type"], "type and flags")
    for k in absent:
        w.check(getattr(s, k, None) is None, f"{k}: absent")
    w.reach("kind " + kind)


def h_refuse(w, kind):
    """What cannot be read is refused, instead of giving other data."""
    from dissect.volume.lvm import LVM2

    types, _, _ = KINDS[kind]
    seg, _ = kind_segment(w, kind, "none")
    seg["start_extent"] = 0
    seg["type"] = w.pick("type", types)
    w.assume(w.and_(seg["extent_count"] >= 1, seg["extent_count"] <= 1 << 20))
    lv = {"id": "y", "status": ["READ"], "flags": [], "segment_count": 1, "segment1": seg}
    fh, _ = pv_file(w, 0, root_of(kind_group(w, lv), 1))
    lvm = must(w, "opening", LVM2, fh)
    s, err = w.call(lvm.vg.logical_volumes["a"].open)
    if err is None:
        data, err = w.call(s.read, 512)
    w.check(err is not None and isinstance(err, Exception), f"a segment of kind {kind} is refused")
    w.reach("refused")


def h_pv_size(w, known):
    """Size of a physical volume."""
    from dissect.volume.lvm import LVM2

    es = w.pick("es", [1, 128, 8192])
    dev_size, start, count = w.int("dev_size", 1, 1 << 50), w.int("pe_start", 0, 1 << 40), w.int("pe_count", 0, 1 << 40)
    pv = {"id": dashed(IDS[0]), "status": [], "flags": [], "pe_start": start, "pe_count": count}
    if known:
        pv["dev_size"] = dev_size
    vg = {"id": "x", "seqno": 1, "status": ["READ"], "flags": [], "extent_size": es, "max_lv": 0, "max_pv": 0,
          "physical_volumes": {"pv0": pv}, "logical_volumes": {}}
    fh, size = pv_file(w, 0, root_of(vg, 1))
    lvm = must(w, "opening", LVM2, fh)
    got = must(w, "size", lambda: lvm.vg.pv[0].size)
    if known:
        w.check(got == dev_size * SECTOR, "size of the physical volume", ("K-P21-dev-size", got == dev_size * es))
    else:
        w.check(got == (start + count * es) * SECTOR, "size of the physical volume")
    w.reach("pv size")


def h_text(w, where, n, escapes=False):
    """Free characters inside a text value do not change what is around it."""
    from dissect.volume.lvm import LVM2

    raw = w.bytes("text", n)
    text, chars = (raw,), (raw,)
    for b in raw:
        w.assume(w.and_(b >= 32, b <= 126))
        if not escapes:
            w.assume(w.and_(b != 34, b != 92))
    if escapes:
        # quotes and backslashes are written with a backslash
        text = ()
        for i in range(n):
            text += (b"\\", raw[i : i + 1]) if w.fork(w.or_(raw[i] == 34, raw[i] == 92)) else (raw[i : i + 1],)
    vg = {"id": "x", "seqno": w.int("seqno", 0, U32), "status": ["READ"], "flags": [], "extent_size": 8192, "max_lv": 0, "max_pv": 0,
          "physical_volumes": {"pv0": {"id": dashed(IDS[0]), "status": [], "flags": [], "pe_start": 2048, "pe_count": 1}},
          "logical_volumes": {"a": {"id": "y", "status": [], "flags": [], "segment_count": 0}}}
    root = root_of(vg, 1)
    if where == "description":
        root["description"] = text
    elif where == "tags":
        vg["tags"] = ["one", text, "three"]
    elif where == "wide":
        vg["tags"] = ["one", text, text, "four"]
    elif where == "first":
        vg["tags"] = [text]
    elif where == "device":
        vg["physical_volumes"]["pv0"]["device"] = text
    fh, _ = pv_file(w, 0, root, style={"arrays": where == "wide", "comment": w.pick("comment", [b"", b"\t# c"])})
    lvm = must(w, "opening", LVM2, fh)
    g = lvm.vg
    w.check(g.seqno == vg["seqno"], "the value behind the text")
    w.check([p.name for p in g.pv] == ["pv0"] and [v.name for v in g.lv] == ["a"], "the sections behind the text")
    w.check(g.pv[0].pe_count == 1, "the values behind the text")
    if where == "description":
        same_text(w, lvm.description, chars, "description")
    elif where == "device":
        same_text(w, g.pv[0].device, chars, "device")
    else:
        want = vg["tags"]
        w.check(len(g.tags) == len(want), "tags")
        for a, b in zip(g.tags, want):
            same_text(w, a, chars if isinstance(b, tuple) else (b.encode(),), "tag")
    w.reach("text")


def jobs_p21(tier):
    out = []

    def add(fn, name, weight=3, **cfg):
        out.append({"name": name, "fn": fn, "cfg": cfg, "weight": weight})

    for style in ("plain", "comments", "short", "lines"):
        add("h_group", f"fields-{style}", 5, style=style)
    for have, order in (([1], [0]), ([0], [0]), ([1, 1], [0, 1]), ([1, 1], [1, 0]), ([0, 1], [0, 1]), ([1, 0], [1, 0]), ([1, 1], [1]),
                        ([1, 1, 1], [2, 0, 1]), ([0, 1, 1], [0, 2])):
        add("h_newest", "newest-" + "".join(map(str, have)) + "-" + "".join(map(str, order)), have=have, order=order)
    for kind in KINDS:
        add("h_kind", f"kind-{kind}", 4, kind=kind)
    for known in (0, 1):
        add("h_pv_size", f"size-{known}", known=known)
    for where, n in (("description", 3), ("tags", 2), ("wide", 2), ("first", 1), ("device", 3)):
        add("h_text", f"text-{where}", 5, where=where, n=n)
        add("h_text", f"escapes-{where}", 5, where=where, n=min(n, 2), escapes=True)
    if tier == "thorough":
        for where in ("description", "tags", "wide", "first", "device"):
            add("h_text", f"text-{where}-5", 8, where=where, n=5)
            add("h_text", f"escapes-{where}-3", 8, where=where, n=3, escapes=True)
        add("h_newest", "newest-4", have=[1, 1, 1], order=[1, 2, 0])
    return out


# -- P22 ---------------------------------------------------------------------------------


class Group:
    """Collects logical volumes; ``at(lv, a)`` is where byte ``a`` of a volume is."""

    def __init__(self, w, es, pvs, missing=(), sizes="header"):
        self.w, self.es, self.extent = w, es, es * SECTOR
        self.n, self.missing, self.sizes = pvs, missing, sizes
        self.lvs, self.flags = {}, ""
        self.need = [0] * pvs
        self.first = [w.int(f"first{i}", 1 << 13, 1 << 20) * SECTOR for i in range(pvs)]
        self.reads = 0

    def lv(self, name, *segments, visible=True):
        """``segments``: dictionaries with ``count`` and a kind of their own."""
        self.lvs[name] = list(segments)
        start = 0
        for s in segments:
            s["start"] = start
            start = start + s["count"]

    def size(self, name):
        return sum(s["count"] for s in self.lvs[name]) * self.extent

    def pe(self, name):
        return self.w.int(name, 0, 1 << 30)

    def open(self, shuffle=None):
        from dissect.volume.lvm import LVM2

        w, lvs = self.w, {}
        for name, segs in self.lvs.items():
            d = {"id": name, "status": ["READ", "WRITE", "VISIBLE"], "flags": [], "segment_count": len(segs)}
            for i in (shuffle or {}).get(name, range(len(segs))):
                s = segs[i]
                e = {"start_extent": s["start"], "extent_count": s["count"], "type": s["type"] + self.flags}
                if s["type"] in ("striped", "linear"):
                    e["stripe_count"] = len(s["areas"])
                    if "chunk" in s:
                        e["stripe_size"] = s["chunk"] // SECTOR
                    e["stripes"] = [x for pv, pe in s["areas"] for x in (f"pv{pv}", pe)]
                elif s["type"] == "mirror":
                    e["mirror_count"] = len(s["legs"])
                    e["region_size"] = 1024
                    e["mirrors"] = [x for leg in s["legs"] for x in leg]
                elif s["type"] == "thin":
                    e.update(thin_pool=s["pool"], transaction_id=1, device_id=s["dev"])
                    if "origin" in s:
                        e["external_origin"] = s["origin"]
                elif s["type"] == "thin-pool":
                    e.update(metadata=s["meta"], pool=s["data"], transaction_id=1, chunk_size=s["chunk"] // SECTOR, discards="passdown",
                             zero_new_blocks=1)
                d[f"segment{i + 1}"] = e
            lvs[name] = d
        pvs = {}
        for i in range(self.n):
            count = w.int(f"pe_count{i}", 1, 1 << 40)
            pvs[f"pv{i}"] = {"id": dashed(IDS[i]), "device": f"/dev/sd{i}", "status": [], "flags": [], "pe_start": self.first[i] // SECTOR,
                             "pe_count": count}
        vg = {"id": "x", "seqno": 3, "status": ["READ"], "flags": [], "extent_size": self.es, "max_lv": 0, "max_pv": 0,
              "physical_volumes": pvs, "logical_volumes": lvs}
        self.files = []
        for i in range(self.n):
            fh, size = pv_file(w, i, root_of(vg, 1), first=self.first[i])
            for segs in self.lvs.values():
                for s in segs:
                    for pv, pe in s.get("areas", ()):
                        if pv == i:
                            # the areas are inside the physical volume
                            k = s["count"] // len(s["areas"]) if "chunk" in s else s["count"]
                            end = (pe + k) * self.extent
                            if self.sizes == "header":
                                w.assume(self.first[i] + end <= size)
                            else:
                                w.assume(pe + k <= w.int(f"pe_count{i}", 1, 1 << 40))
            self.files.append(fh)
        lvm = must(w, "opening", LVM2, [f for i, f in enumerate(self.files) if i not in self.missing])
        for i, f in enumerate(self.files):
            f.seek(w.int(f"havoc{i}", 0, 1 << 40))
        return lvm.vg.logical_volumes

    def in_pv(self, pv, a):
        return ("at", self.files[pv], self.first[pv] + a)

    def at(self, name, a):
        w = self.w
        for s in self.lvs[name]:
            start = s["start"] * self.extent
            if w.fork(a < start + s["count"] * self.extent):
                break
        o = a - start
        if s["type"] in ("striped", "linear"):
            if len(s["areas"]) == 1:
                pv, pe = s["areas"][0]
                w.reach("linear")
                return self.in_pv(pv, pe * self.extent + o)
            n, chunk = len(s["areas"]), s["chunk"]
            c, into = o // chunk, o % chunk
            row, which = c // n, w.concrete(c % n)
            pv, pe = s["areas"][which]
            w.reach("striped")
            return self.in_pv(pv, pe * self.extent + row * chunk + into)
        if s["type"] == "mirror":
            leg, le = s["legs"][s["good"]]
            w.reach("mirror")
            return self.at(leg, le * self.extent + o)
        if s["type"] == "thin":
            return s["map"](o)
        raise AssertionError(s["type"])


def h_lv(w, es, plan, blocks=None, missing=(), sizes="header", shuffle=None, span=None, flags=""):
    """Any read of a logical volume.

    ``plan``: segments as ("lin", pv) or ("str", [pvs], chunk).
    """
    g = Group(w, es, 1 + max(max(p[1]) if p[0] == "str" else p[1] for p in plan), sizes=sizes)
    segs, radices = [], None
    for i, p in enumerate(plan):
        if p[0] == "lin":
            segs.append({"type": "striped", "count": w.int(f"count{i}", 1, 1 << 24), "areas": [(p[1], g.pe(f"pe{i}"))]})
        else:
            n = len(p[1])
            segs.append({"type": "striped", "count": w.int(f"rows{i}", 1, 1 << 24) * n, "chunk": p[2] * SECTOR,
                         "areas": [(pv, g.pe(f"pe{i}.{k}")) for k, pv in enumerate(p[1])]})
            radices = [(p[2] * SECTOR, False), (n, True)]
    g.lv("lv", *segs)
    g.flags = flags
    lvs = g.open({"lv": shuffle} if shuffle else None)
    lv = lvs["lv"]
    fh = must(w, "opening the volume", lv.open)
    size = g.size("lv")
    w.check(fh.size == size, "size of the volume")
    read_at(w, fh, size, lambda a: g.at("lv", a), "read", span or 1 << 16, radices=radices)


def h_mirror(w, gone, flags=""):
    """Mirrors over images, parts of which may be missing."""
    g = Group(w, 8192, 3, missing=gone)
    g.flags = flags
    a, b = w.int("count0", 1, 1 << 24), w.int("count1", 1, 1 << 24)
    for i in range(2):
        g.lv(f"mim{i}", {"type": "striped", "count": a + b, "areas": [(i, g.pe(f"pe{i}"))]})
    good = 1 if 0 in gone else 0
    g.lv("mir", {"type": "mirror", "count": a, "legs": [("mim0", 0), ("mim1", 0)], "good": good},
         {"type": "mirror", "count": b, "legs": [("mim0", a), ("mim1", a)], "good": good})
    lvs = g.open()
    fh, err = w.call(lvs["mir"].open)
    if len(gone) == 2:
        w.check(err is not None, "no image left")
        w.reach("no image")
        return
    if err is not None:
        w.fail(f"opening the volume raised {type(err).__name__}: {err}")
    w.check(fh.size == (a + b) * g.extent, "size of the volume")
    read_at(w, fh, (a + b) * g.extent, lambda x: g.at("mir", x), "read", 1 << 16)


def h_missing(w, plan):
    """A volume with an area on a missing physical volume cannot be opened; the others can."""
    from dissect.volume.exceptions import LVM2Error

    g = Group(w, 8192, 2, missing=(1,))
    g.lv("here", {"type": "striped", "count": w.int("count0", 1, 1 << 24), "areas": [(0, g.pe("pe0"))]})
    segs = [{"type": "striped", "count": w.int(f"c{i}", 1, 1 << 24), "areas": [(pv, g.pe(f"p{i}"))]} for i, pv in enumerate(plan)]
    g.lv("gone", *segs)
    lvs = g.open()
    fh, err = w.call(lvs["gone"].open)
    w.check(err is not None and isinstance(err, LVM2Error), "an area is missing")
    fh = must(w, "opening the complete volume", lvs["here"].open)
    read_at(w, fh, g.size("here"), lambda a: g.at("here", a), "read", 1 << 16)
    w.reach("missing")


def h_thin(w, origin=False, flags=""):
    """A thin volume: its blocks are in the data volume of the pool, as the metadata volume says."""
    chunk = 65536
    g = Group(w, 8192, 2)
    g.flags = flags
    g.lv("tmeta", {"type": "striped", "count": w.int("mcount", 1 << 16, 1 << 24), "areas": [(0, g.pe("mpe"))]})
    a = w.int("dcount", 1, 1 << 24)
    g.lv("tdata", {"type": "striped", "count": a, "areas": [(1, g.pe("dpe0"))]},
         {"type": "striped", "count": w.int("dcount1", 1, 1 << 24), "areas": [(0, g.pe("dpe1"))]})
    g.lv("pool", {"type": "thin-pool", "count": g.lvs["tdata"][0]["count"], "meta": "tmeta", "data": "tdata", "chunk": chunk})
    # metadata and data do not share extents
    mpe, mcount = w.int("mpe", 0, 1 << 30), w.int("mcount", 1 << 16, 1 << 24)
    w.assume(w.int("dpe1", 0, 1 << 30) >= mpe + mcount)
    dev = w.int("dev", 0, (1 << 24) - 1)
    seg = {"type": "thin", "count": w.int("tcount", 1, 1 << 24), "pool": "pool", "dev": dev}
    if origin:
        g.lv("origin", {"type": "striped", "count": seg["count"], "areas": [(1, g.pe("ope"))]})
        seg["origin"] = "origin"
    g.lv("thin", seg)
    lvs = g.open()
    base = g.first[0] + mpe * g.extent
    t = Tree(w, g.files[0], 4096, "m", base=base, limit=1 << 16)
    data_size = g.size("tdata")

    def value(j):
        b = w.int(f"data{j}", 0, (1 << 38) - 1)
        w.assume((b + 1) * chunk <= data_size)
        return b * (1 << 24) + w.int(f"time{j}", 0, (1 << 24) - 1)

    root = build(w, t, 2, value, 252, hi=1 << 36)
    top = Tree(w, g.files[0], 4096, "top", t.blocks, base, limit=1 << 16)
    mapping = top.node(LEAF, [(dev, root)], 252)
    det = Tree(w, g.files[0], 4096, "det", t.blocks, base, limit=1 << 16)
    details = det.node(LEAF, [(dev, [1, 1, 1])], 126, 24)
    s = w.region(g.files[0], base, 512, "sb")
    s.put(0, bytes(512))
    s.uint(32, 8, MAGIC)
    s.uint(40, 4, 2)
    s.uint(320, 8, mapping)
    s.uint(328, 8, details)
    s.uint(336, 4, chunk // SECTOR)
    s.uint(340, 4, 8)
    fh = must(w, "opening the volume", lvs["thin"].open)
    size = g.size("thin")
    w.check(fh.size == size, "size of the volume")

    def oracle(x, unmapped=None):
        block, off = x // chunk, x % chunk
        e = find(w, t.entries, block)
        if e is None:
            w.reach("unmapped")
            return g.at("origin", x) if origin and unmapped is None else ("byte", 0)
        w.reach("thin")
        return g.at("tdata", w.int(f"data{t.entries.index(e)}", 0, (1 << 38) - 1) * chunk + off)

    read_at(w, fh, size, oracle, "read", chunk, radices=[(chunk, False)],
            known=("K-P22-external-origin", lambda i: oracle(i, "zero")) if origin else None)


def jobs_p22(tier):
    out = []

    def add(fn, name, weight=3, **cfg):
        out.append({"name": name, "fn": fn, "cfg": cfg, "weight": weight})

    add("h_lv", "linear", es=8192, plan=[("lin", 0)])
    add("h_lv", "linear-small", es=1, plan=[("lin", 0)])
    add("h_lv", "linear-2", 5, es=8192, plan=[("lin", 0), ("lin", 1)])
    add("h_lv", "linear-3", 6, es=8192, plan=[("lin", 1), ("lin", 0), ("lin", 1)])
    add("h_lv", "linear-unsorted", 5, es=8192, plan=[("lin", 0), ("lin", 1)], shuffle=[1, 0])
    add("h_lv", "linear-vg-size", 5, es=128, plan=[("lin", 0)], sizes="vg")
    add("h_lv", "striped-2", 7, es=8192, plan=[("str", [0, 1], 128)])
    add("h_lv", "striped-3", 12, es=8192, plan=[("str", [0, 1, 2], 8)], span=900)
    add("h_lv", "striped-same", 7, es=128, plan=[("str", [0, 0], 16)], span=16384)
    add("h_lv", "striped-mixed", 9, es=8192, plan=[("lin", 1), ("str", [1, 0], 128), ("lin", 0)], span=32768)
    for gone in ((), (0,), (1,), (0, 1)):
        add("h_mirror", "mirror-" + ("".join(map(str, gone)) or "all"), 5, gone=list(gone))
    add("h_missing", "missing-1", plan=[1])
    add("h_missing", "missing-01", plan=[0, 1])
    add("h_thin", "thin", 7)
    add("h_lv", "linear-flag", es=8192, plan=[("lin", 0), ("lin", 1)], flags="+COMPATIBLE")
    add("h_lv", "striped-flags", 7, es=8192, plan=[("str", [0, 1], 128)], span=16384, flags="+ONE+TWO")
    add("h_mirror", "mirror-flag", 5, gone=[0], flags="+ONE")
    add("h_thin", "thin-flag", 7, flags="+ONE")
    add("h_thin", "thin-origin", 7, origin=True)
    for kind in KINDS:
        add("h_refuse", f"refuse-{kind}", 4, kind=kind)
    if tier == "thorough":
        add("h_lv", "linear-5", 6, es=1024, plan=[("lin", k % 3) for k in range(5)], span=1 << 20)
        add("h_lv", "striped-3-wide", 12, es=8192, plan=[("str", [0, 1, 2], 8)], span=8192)
        add("h_lv", "striped-4", 12, es=16, plan=[("str", [3, 1, 0, 2], 1)], span=700)
        add("h_lv", "striped-2-2", 12, es=2048, plan=[("str", [0, 1], 32), ("str", [2, 0], 32)], span=8192)
    return out


PROPERTIES = {
    "P20": {
        "jobs": jobs_p20,
        "must_reach": ["text", "wrap", "ignored", "none", "areas", "no metadata", "metadata", "no label", "read-compared"],
        "bounds": "label in sector 0-3, header offset 32 or 64 (thorough: 32-256), ids of 32 free alphanumeric characters, volume size up to 2^59 bytes, data area anywhere from 1 GiB, up to 2 metadata areas at free sector offsets with a free size up to 1 MiB, kinds in use/empty/ignored/wrapping; text offset free, wrap point one of 1, 2, 37, n-1, n bytes; 1 metadata text with a free seqno; reads of up to 64 KiB (64 sectors) anywhere in the data area; source position arbitrary before every call",
        "outside": "checksums (not verified by the code), several texts in one area, bootloader areas, more than 2 metadata areas, more than one data area",
    },
    "P21": {
        "jobs": jobs_p21,
        "must_reach": ["group", "newest", "none", "missing", "pv size", "text", *(f"kind {k}" for k in KINDS)],
        "bounds": "one volume group with 2 physical volumes, 3 logical volumes, 4 segments and 1 historical volume, every number free over 64 bits (times 32 bits), in 4 layouts of the text; segments of 11 further kinds (33 types, 0-2 flags) with all, none or one of their optional fields; texts with 1-3 (thorough: 5) free printable characters in 5 places, quotes and backslashes escaped among 1-2 (3) of them; up to 3 physical volumes with free seqno, with or without metadata, in several orders and with some not given; extent sizes 1, 128, 8192 sectors for sizes",
        "outside": "escapes other than of quotes and backslashes, other section nesting, negative and fractional numbers, deviations from the grammar",
    },
    "P22": {
        "jobs": jobs_p22,
        "must_reach": ["linear", "striped", "mirror", "thin", "unmapped", "missing", "no image", "refused", "read-compared", "read-clipped-at-end"],
        "bounds": "extent sizes 1, 16, 128, 2048, 8192 sectors; 1-3 (thorough 5) segments with free extent counts up to 2^24 and free extent offsets up to 2^30; 2-4 stripes with chunks of 1-128 sectors; 2 mirror images, any of them missing; segment types with 0-2 flags; thin volumes with a two-entry mapping tree whose metadata and data volumes are segments themselves; data areas at a free sector offset; any read position up to 16 bytes beyond the end, lengths up to the span of each job (500 bytes to 64 KiB)",
        "outside": "the data of RAID, snapshot, cache, VDO, writecache and integrity segments (the code has no reader for them: they are refused, which is checked), more stripes or segments, thin pools of more than one segment",
    },
}
