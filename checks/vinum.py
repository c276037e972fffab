"""Vinum: the configuration language, assembly of volumes."""

from __future__ import annotations

from checks.common import must, read_at
from checks.raid import parity_oracle

START = 135680
MAGICS = (0x56494E554D2D3100, 0x494E2056494E4F00)
NO_MAGICS = (0x56494E554D2D2D00, 0x4E4F2056494E4F00)


# -- reference parser --------------------------------------------------------------------


class Stop(Exception):
    """This line and everything after it is not used."""


def is_in(w, b, chars):
    return w.fork(w.or_(*(b == c for c in chars)))


def is_word(w, tok, *words):
    for word in words:
        if len(tok) == len(word) and w.fork(w.and_(*(a == b for a, b in zip(tok, word)))):
            return True
    return False


def split_lines(w, text):
    out = [[]]
    for b in text:
        if is_in(w, b, b"\x00\n"):
            out.append([])
        else:
            out[-1].append(b)
    return out


def tokens_of(w, line):
    """Tokens of a line, lazily: an error only matters once it is reached."""
    i = 0
    while True:
        while i < len(line) and is_in(w, line[i], b" \t"):
            i += 1
        if i == len(line) or is_in(w, line[i], b"#"):
            return
        if is_in(w, line[i], b"\"'"):
            raise Stop
        j = i
        while j < len(line) and not is_in(w, line[j], b" \t"):
            j += 1
        yield line[i:j]
        i = j


def size_of(w, tok):
    """A number with an optional sign and unit; the caller keeps to well-formed numerals."""
    i, sign = 0, 1
    if tok and w.fork(tok[0] == ord("-")):
        i, sign = 1, -1
    value, digits = 0, 0
    while i < len(tok) and w.fork(w.and_(tok[i] >= 48, tok[i] <= 57)):
        value = value * 10 + (tok[i] - 48)
        i += 1
        digits += 1
    if not digits:
        return 0
    value = value * sign
    if i < len(tok):
        # a second minus sign right behind digits is outside the bounds
        w.assume(tok[i] != ord("-"))
        for units, k in ((b"bBsS", 512), (b"kK", 1 << 10), (b"mM", 1 << 20), (b"gG", 1 << 30)):
            if is_in(w, tok[i], units):
                return value * k
    return value


def choose(w, tok, words, default):
    for word in words:
        if is_word(w, tok, word):
            return word.decode().upper()
    return default


STATES = (b"up", b"initializing", b"degraded", b"growable")


def ref_line(w, line, number):
    """One configuration line as (kind, fields), None for a line without tokens."""
    it = tokens_of(w, line)
    kind = next(it, None)
    if kind is None:
        return None

    def value():
        v = next(it, None)
        if v is None:
            raise Stop
        return v

    def size():
        tok = value()
        return number(tok) if number is not None and number(tok) is not None else size_of(w, tok)

    f = {}
    if is_word(w, kind, b"volume"):
        for tok in it:
            if is_word(w, tok, b"state"):
                f["state"] = choose(w, value(), (b"up",), "DOWN")
            else:
                f["name"] = tok
        if "name" not in f:
            raise Stop
        return "volumes", f
    if is_word(w, kind, b"plex"):
        for tok in it:
            if is_word(w, tok, b"name"):
                f["name"] = value()
            elif is_word(w, tok, b"org"):
                f["org"] = choose(w, value(), (b"concat", b"striped", b"raid5"), "DISORG")
                if f["org"] in ("STRIPED", "RAID5"):
                    f["stripesize"] = size()
                    if w.fork(f["stripesize"] <= 0):
                        raise Stop
            elif is_word(w, tok, b"vol", b"volume"):
                f["volume"] = value()
            elif is_word(w, tok, b"state"):
                f["state"] = choose(w, value(), STATES, "DOWN")
            else:
                raise Stop
        return "plexes", f
    if is_word(w, kind, b"sd"):
        for tok in it:
            if is_word(w, tok, b"name", b"drive", b"plex"):
                key = "name" if is_word(w, tok, b"name") else "drive" if is_word(w, tok, b"drive") else "plex"
                f[key] = value()
            elif is_word(w, tok, b"len", b"length"):
                n = size()
                f["length"] = -1 if w.fork(n < 0) else n
            elif is_word(w, tok, b"driveoffset"):
                n = f["driveoffset"] = size()
                if w.fork(w.and_(n != 0, n < START)):
                    raise Stop
            elif is_word(w, tok, b"plexoffset"):
                n = f["plexoffset"] = size()
                if w.fork(n < 0):
                    raise Stop
            elif is_word(w, tok, b"state"):
                f["state"] = choose(w, value(), STATES, "DOWN")
            else:
                raise Stop
        if "drive" not in f:
            raise Stop
        return "sds", f
    raise Stop


FIELDS = {
    "volumes": ("name", "state"),
    "plexes": ("name", "org", "stripesize", "volume", "state"),
    "sds": ("name", "drive", "length", "driveoffset", "plex", "plexoffset", "state"),
}


def compare(w, text, number=None, tag=""):
    """The records found in ``text`` are those of the reference parser."""
    from dissect.volume.vinum.config import parse_vinum_config

    when = w.time(1234567890 * 1000000)
    got = must(w, "parsing", parse_vinum_config, when, text)
    want = {"volumes": [], "plexes": [], "sds": []}
    try:
        for line in split_lines(w, text):
            r = ref_line(w, line, number)
            if r is not None:
                want[r[0]].append(r[1])
                w.reach(r[0])
    except Stop:
        w.reach("stopped")
    for kind, fields in FIELDS.items():
        w.check(len(got[kind]) == len(want[kind]), f"number of {kind}")
        for g, f in zip(got[kind], want[kind]):
            w.check(g.timestamp == when, "timestamp")
            for name in fields:
                v = getattr(g, name)
                if name not in f:
                    w.check(v is None, f"{name} is not set")
                elif v is None:
                    w.fail(f"{name} is set")
                elif name in ("state", "org"):
                    w.check(v.name == f[name], name)
                    w.reach(f"{name} {f[name]}")
                elif isinstance(f[name], list):
                    w.check(len(v) == len(f[name]), f"length of {name}")
                    w.check(w.and_(*(a == b for a, b in zip(v, f[name]))), name)
                else:
                    w.check(v == f[name], name)
                    w.reach("size")
    w.observe("counts", [len(got[k]) for k in FIELDS])


# -- P11 ---------------------------------------------------------------------------------


def h_text(w, parts):
    """Text with stretches of arbitrary bytes."""
    text = b""
    for i, p in enumerate(parts):
        text = text + (w.bytes(f"free{i}", p) if isinstance(p, int) else p.encode())
    compare(w, text)


def h_number(w, line, unit, sign):
    """A number of any magnitude with a unit."""
    value = w.int("value", 0, 1 << 40)
    digits = w.numeral(value)
    u = {"none": b"", "junk": b"q", "free": None}.get(unit, unit.encode())
    if u is None:
        u = w.bytes("unit", 1)
        for c in b"-0123456789 \t\n\x00":
            w.assume(u[0] != c)
        u = u + w.pick("trailing", [b"", b"k"])
    text = line.encode().replace(b"@", sign.encode() + digits.encode() + b"%")
    head, tail = text.split(b"%")
    text = head + u + tail

    def number(tok):
        # the numeral stands for the symbolic value
        t = [c for c in tok]
        d = list(sign.encode() + digits.encode())
        if len(t) < len(d) or any(a is not b and not (isinstance(a, int) and a == b) for a, b in zip(t, d)):
            return None
        v = -value if sign == "-" else value
        rest = t[len(d):]
        if rest:
            for units, k in ((b"bBsS", 512), (b"kK", 1 << 10), (b"mM", 1 << 20), (b"gG", 1 << 30)):
                if is_in(w, rest[0], units):
                    return v * k
        return v

    compare(w, text, number)
    w.reach(f"number {unit}")


KEYS = {
    "volume": [(b"", b"v"), (b"state", b"up"), (b"state", None)],
    "plex": [(b"name", b"p"), (b"org", b"concat"), (b"org", b"striped 4k"), (b"org", b"raid5 512"), (b"org", b"striped"), (b"vol", b"w"),
             (b"volume", b"w"), (b"state", b"up"), (b"sd", b"x"), (b"org", b"raid5 0")],
    "sd": [(b"name", b"s"), (b"drive", b"d"), (b"len", b"12s"), (b"length", b"1m"), (b"driveoffset", b"265s"), (b"plex", b"p"),
           (b"plexoffset", b"0s"), (b"state", b"up"), (b"volume", b"x"), (b"driveoffset", b"264s"), (b"plexoffset", b"-1"),
           (b"driveoffset", b"0")],
}


def h_order(w, kind, count):
    """Attributes in any order, repeated, unknown or without value; every value's last byte free."""
    line = kind.encode()
    for i in range(count):
        key, val = w.pick(f"attribute{i}", KEYS[kind])
        line += (b" " + key if key else b"")
        if val is not None:
            line += b" " + val
    cut = w.pick("cut", ["complete", "value missing"])
    if cut != "complete":
        line = line.rsplit(b" ", 1)[0]
    free = w.bytes("free", 1)
    compare(w, line + free + b"\nvolume next state up")


def h_lines(w):
    """Several lines of any kind, broken or not, under either separator."""
    kinds = [b"volume a", b"plex name b", b"sd drive c", b"", b"  # sd", b"drive d device e", b"plex colour", b"sd name f", b"volume 'g'"]
    text = b""
    for i in range(3):
        text += w.pick(f"line{i}", kinds)
        if i < 2:
            text = text + w.bytes(f"sep{i}", 1)
    compare(w, text)


def jobs_p11(tier):
    out = []

    def text(name, *parts, weight=5):
        out.append({"name": name, "fn": "h_text", "weight": weight, "cfg": {"parts": list(parts)}})

    deep = tier == "thorough"
    text("free-line", 4 if not deep else 5, weight=9)
    text("kind-volume", "volum", 1, " v\nsd drive d")
    text("kind-plex", "ple", 2, "\nsd drive d")
    text("kind-sd", "s", 2, "drive d\nvolume v")
    text("between-tokens", "volume a", 3 if not deep else 4, "b\nsd drive d", weight=8)
    text("after-value", "sd drive d", 3, "name n\nplex name p", weight=8)
    text("line-start", 3, "plex name p\nvolume v", weight=8)
    text("volume-state", "volume a state u", 2)
    text("plex-state-up", "plex name p state ", 2)
    text("plex-state-initializing", "plex name p state initializin", 1)
    text("plex-state-degraded", "plex name p state degrade", 2)
    text("plex-state-growable", "plex name p state ", 1, "rowable")
    text("sd-state-up", "sd drive d state ", 2)
    text("sd-state-initializing", "sd drive d state initializin", 1)
    text("sd-state-degraded", "sd drive d state degrade", 2)
    text("sd-state-growable", "sd drive d state ", 1, "rowable")
    text("org-concat", "plex name p org conca", 1, " vol v")
    text("org-striped", "plex name p org stripe", 1, " 512s vol v")
    text("org-raid5", "plex name p org raid", 1, " 512s vol v")
    text("stripesize-digits", "plex org raid5 1", 2, "0")
    text("length-digits", "sd drive d len 1", 2, " name n")
    out += [{"name": f"number-{n}-{u or 'none'}{s}", "fn": "h_number", "cfg": {"line": line, "unit": u, "sign": s}}
            for n, line in (("length", "sd drive d len @ name n\nvolume v"), ("driveoffset", "sd drive d driveoffset @\nvolume v"),
                            ("plexoffset", "sd drive d plexoffset @\nvolume v"), ("raid5", "plex org raid5 @\nvolume v"),
                            ("striped", "plex org striped @ name p\nvolume v"))
            for u in ("none", "s", "free") for s in ("", "-")]
    out += [{"name": f"order-{k}", "fn": "h_order", "weight": 7, "cfg": {"kind": k, "count": 2 if k != "volume" else 3}} for k in KEYS]
    if deep:
        out += [{"name": f"order3-{k}", "fn": "h_order", "weight": 7, "cfg": {"kind": k, "count": 3}} for k in ("plex", "sd")]
    out.append({"name": "lines", "fn": "h_lines", "weight": 8, "cfg": {}})
    return out


# -- P12 ---------------------------------------------------------------------------------

CONFIG = 2048


def drive(w, name, text, *, sec=1000, usec=0, magic=MAGICS[0], size=None, length=None):
    """A drive whose configuration area holds ``text``; returns (file, drive size)."""
    size = size if size is not None else w.int(f"{name}.size", 1 << 20, 1 << 50)
    fh = w.file(name, size=1 << 60)
    r = w.region(fh, 4096, 512, "hdr")
    r.uint(0, 8, magic, "big")
    r.uint(8, 8, CONFIG, "big")
    r.put(16, b"host".ljust(32, b"\x00"))
    r.put(48, name.encode().ljust(32, b"\x00"))
    r.uint(80, 8, 5, "big")
    r.uint(88, 8, 6, "big")
    r.uint(96, 8, sec, "big")
    r.uint(104, 8, usec, "big")
    r.uint(112, 8, size, "big")
    c = w.region(fh, 4608, CONFIG, "cfg")
    assert len(text) <= CONFIG
    c.put(0, text.encode().ljust(CONFIG, b"\x00"))
    return fh, size


def sd_line(w, name, drv, plex, length, offset, plexoffset, state="up"):
    """Sizes are given in sectors."""
    return (f"sd name {name} drive {drv} len {w.numeral(length)}s driveoffset {w.numeral(offset)}s state {state} "
            f"plex {plex} plexoffset {w.numeral(plexoffset)}s\n")


def subdisks(w, tag, plex, n, unit, *, same=True, perm=None, drives="d", states=None):
    """Subdisk lines of one plex; returns (text, [(drive, drive offset in bytes, length in bytes)] in plex order)."""
    text, out, at = [], [], 0
    length = None
    for i in range(n):
        if length is None or not same:
            length = w.int(f"{tag}{i}.len", 1, 1 << 30) * (unit // 512)
        off = 265 + w.int(f"{tag}{i}.off", 0, 1 << 30)
        d = f"{drives}{perm[i] if perm else i}"
        text.append(sd_line(w, f"{plex}.s{i}", d, plex, length, off, at, states[i] if states else "up"))
        out.append((d, off * 512, length * 512))
        at = at + length
    return text, out


def fits(w, sds, disks):
    """Every subdisk lies inside its drive."""
    for d, off, length in sds:
        if d in disks:
            w.assume(off + length <= disks[d][1])


def shuffled(w, lines):
    k = w.pick("line order", [0, 1, 2] if len(lines) < 3 else [2])
    return lines if k == 0 else lines[::-1] if k == 1 else lines[1:] + lines[:1]


def assemble(w, files):
    from dissect.volume.vinum.vinum import Vinum, VinumPhysicalDisk

    for f in files:
        f.seek(w.int("havoc", 0, 1 << 40))
    given = files
    if len(files) == 1:
        # a single drive need not be in a list, and drives can be opened before
        form = w.pick("form", ["list", "bare", "disk"])
        if form != "list":
            given = files[0] if form == "bare" else must(w, "opening", VinumPhysicalDisk, files[0])
    v = must(w, "assembling", Vinum, given)
    w.check(len(v.configurations) == 1, "one configuration")
    w.check(len(v.configurations[0].physical_disks) == len(files), "all drives belong to it")
    return v.configurations[0].virtual_disks


def mapping(w, org, n, stripe, sds, disks):
    """(oracle, a position) of a plex."""
    where = {i: (disks[d][0], off) for i, (d, off, _) in enumerate(sds) if d in disks}
    if org == "striped":
        pos = w.mixed("pos", [(stripe, False), (n, True)], 1 << 58)

        def at(a):
            f, start = where[w.concrete((a // stripe) % n)]
            return ("at", f, start + (a // stripe) // n * stripe + a % stripe)

        return at, None, pos
    if org == "raid5":
        at, radices = parity_oracle(w, 5, 0, n, stripe, where)
        return at, None, w.mixed("pos", radices, 1 << 58)

    def at(a, last=lambda i: sds[i][2]):
        base = 0
        for i in range(n - 1):
            f, start = where[i]
            if w.fork(a < base + last(i)):
                return ("at", f, start + a - base)
            base = base + last(i)
        f, start = where[n - 1]
        return ("at", f, start + a - base)

    # recorded finding: a subdisk of a concatenated plex is taken to extend to the recorded size of its drive
    dev = None if n == 1 else ("K-P12-concat", lambda a: at(a, lambda i: disks[sds[i][0]][1] - (sds[i][1] - START)))
    return at, dev, w.int("pos", 0, 1 << 58)


def check_read(w, vd, size, at, dev, pos, files):
    fh = must(w, "open", vd.open)
    for f in files:
        f.seek(w.int("havoc", 0, 1 << 40))
    length = w.int("len", 1, 700)
    w.assume(pos + length <= size)
    read_at(w, fh, None, at, "read", 700, pos=pos, length=length,
            known=dev)


def h_plex(w, org, n, stripe, perm=None, shared=False):
    """A volume of one plex."""
    lines, sds = subdisks(w, "s", "vol.p0", n, stripe or 512, same=org != "concat", perm=perm)
    if shared:
        # all subdisks on one drive
        lines = [ln.replace(f"drive d{i} ", "drive d0 ") for i, ln in enumerate(lines)]
        sds = [("d0", off, length) for _, off, length in sds]
    geometry = f"{org} {stripe // 512}s" if stripe else org
    text = "volume vol state up\n" + f"plex name vol.p0 org {geometry} vol vol state up\n" + "".join(shuffled(w, lines))
    disks = {f"d{i}": drive(w, f"d{i}", text) for i in range(1 if shared else n)}
    fits(w, sds, disks)
    files = [f for f, _ in disks.values()]
    vds = assemble(w, files)
    w.check(len(vds) == 1, "one volume")
    vd = vds[0]
    total = 0
    for _, _, length in sds:
        total = total + length
    if org == "raid5":
        total = total - sds[0][2]
    w.check(vd.name == "vol", "name")
    w.check(vd.level == {"concat": -1, "striped": 0, "raid5": 5}[org], "level")
    w.check(vd.num_disks == n, "number of subdisks")
    w.check(vd.stripe_size == stripe, "stripe size")
    w.check(vd.size == total, "size of the volume")
    w.reach(org)
    w.observe("size", vd.size)
    at, dev, pos = mapping(w, org, n, stripe, sds, disks)
    check_read(w, vd, total, at, dev, pos, files)


def h_mirror(w, org, n, stripe, broken=None):
    """A volume of two plexes; ``broken``: which subdisk of which plex cannot be used, and why."""
    geometry = f"{org} {stripe // 512}s" if stripe else org
    text, plexes = "volume vol state up\n", []
    length = w.int("len0", 1, 1 << 30) * ((stripe or 512) // 512)
    for p in range(2):
        text += f"plex name vol.p{p} org {geometry} vol vol state up\n"
        sds, at = [], 0
        for i in range(n):
            off = 265 + w.int(f"p{p}s{i}.off", 0, 1 << 30)
            d = f"d{p * n + i}"
            state = broken[2] if broken and broken[:2] == [p, i] and broken[2] != "missing" else "up"
            text += sd_line(w, f"vol.p{p}.s{i}", d, f"vol.p{p}", length, off, at, state)
            sds.append((d, off * 512, length * 512))
            at = at + length
        plexes.append(sds)
    disks = {}
    for p in range(2):
        for i in range(n):
            if not (broken and broken[:2] == [p, i] and broken[2] == "missing"):
                disks[f"d{p * n + i}"] = drive(w, f"d{p * n + i}", text)
    for sds in plexes:
        fits(w, sds, disks)
    files = [f for f, _ in disks.values()]
    files = w.pick("order", [files, files[::-1]])
    vds = assemble(w, files)
    w.check(len(vds) == 1, "one volume")
    vd = vds[0]
    total = length * 512 * n
    w.check(vd.name == "vol", "name")
    w.check(vd.level == 1, "level of a mirrored volume")
    w.check(vd.size == total, "size of the volume")
    w.observe("size", vd.size)
    use = [p for p in range(2) if not broken or p != broken[0]]
    pairs = [mapping(w, org, n, stripe, plexes[p], disks) for p in use]
    check_read(w, vd, total, lambda a: ("any", [at(a) for at, _, _ in pairs]), None, pairs[0][2], files)
    w.reach("mirror" if not broken else "half mirror")


def h_newest(w, inactive=False):
    """Each object is taken from the most recently updated configuration of the drives in use."""
    times, lens, files = [], [], []
    n = 3
    for i in range(n):
        sec, usec = w.int(f"sec{i}", 0, 1 << 32), w.int(f"usec{i}", 0, 999999)
        length, stripe = w.int(f"len{i}", 1, 1 << 20), w.int(f"stripe{i}", 1, 1 << 10)
        text = f"volume vol state up\nplex name p org striped {w.numeral(stripe)}s vol vol state up\n"
        for k in range(2):
            text += sd_line(w, f"s{k}", f"d{k}", "p", length, 265, length * k)
        # known to one drive only
        text += f"volume only{i}\nplex name only{i}.p org concat vol only{i}\n" + sd_line(w, f"only{i}.s", f"d{i}", f"only{i}.p", 7, 300, 0)
        off = inactive and i == 2
        f, _ = drive(w, f"d{i}", text, sec=sec, usec=usec, magic=w.pick("magic", NO_MAGICS if off else MAGICS), size=1 << 40)
        files.append(f)
        if not off:
            times.append(sec * 1000000 + usec)
            lens.append((length, stripe))
    for i in range(len(times)):
        for j in range(i):
            w.assume(times[i] != times[j])
    vds = assemble(w, w.pick("order", [files, files[::-1], files[1:] + files[:1]]))
    names = sorted(v.name for v in vds)
    w.check(names == sorted(["vol"] + [f"only{i}" for i in range(len(times))]), "volumes of all drives in use")
    vd = next(v for v in vds if v.name == "vol")
    for i, t in enumerate(times):
        if w.fork(w.and_(*(t >= u for u in times))):
            w.check(vd.stripe_size == lens[i][1] * 512, "stripe size of the newest configuration")
            w.check(vd.size == lens[i][0] * 1024, "length of the newest configuration")
            w.reach("newest" if not inactive else "newest in use")
            w.observe("size", vd.size)
            break


def h_usable(w):
    """Plexes that are down, of unknown organisation or of unknown volumes are not used, nor are orphaned subdisks."""
    base = {"state": "up", "org": "concat", "vol": "vol", "plex": "p", "sdstate": "up", "drv": "d0", "volstate": "up"}
    cases = [{}]
    for key, values in (("state", ["initializing", "degraded", "growable", "down", "whatever", ""]),
                        ("org", ["striped 8s", "disorg"]), ("vol", ["ghost"]), ("plex", ["ghost"]),
                        ("sdstate", ["growable", "stale", "down", "initializing", "degraded", ""]),
                        ("drv", ["ghost"]), ("volstate", ["down"])):
        cases += [{key: v} for v in values]
    c = {**base, **w.pick("case", cases), "volstate": w.pick("volume state", ["up", "down"])}
    state, org, vol, plex, sdstate, drv = (c[k] for k in ("state", "org", "vol", "plex", "sdstate", "drv"))
    text = "volume other\nplex name q org concat vol other\n" + sd_line(w, "t", "d0", "q", 5, 265, 0)
    text += f"volume vol state {c['volstate']}\n"
    text += f"plex name p org {org} vol {vol}" + (f" state {state}\n" if state else "\n")
    line = sd_line(w, "s", drv, plex, 9, 300, 0, sdstate or "up")
    text += line if sdstate else line.replace("state up ", "")
    f, _ = drive(w, "d0", text)
    vds = assemble(w, [f])
    good = (state not in ("down", "whatever") and org != "disorg" and vol == "vol" and plex == "p"
            and sdstate in ("up", "growable", "") and drv == "d0")
    w.check(sorted(v.name for v in vds) == (["other", "vol"] if good else ["other"]), "usable volumes")
    w.reach("usable" if good else "unusable")


def h_none(w):
    """Without any usable volume there is nothing to return."""
    from dissect.volume.vinum.vinum import Vinum

    text = w.pick("config", ["", "volume v\n", "volume v\nplex name p org concat vol v state down\nsd name s drive d0 len 1s plex p plexoffset 0\n"])
    f, _ = drive(w, "d0", text, magic=w.pick("magic", MAGICS))
    got, err = w.call(Vinum, [f])
    w.check(err is not None and isinstance(err, ValueError), "rejected with ValueError")
    w.reach("nothing usable")


def h_header(w):
    """What is read from a drive's header."""
    from dissect.volume.vinum.vinum import VinumPhysicalDisk

    size = w.int("file size", 1 << 20, 1 << 50)
    fh = w.file("d", size=size)
    r = w.region(fh, 4096, 512, "hdr")
    magic = w.int("magic", 0, (1 << 64) - 1)
    length = w.int("config_length", 1, 65536)
    sec, usec, total = w.int("sec", 0, 1 << 32), w.int("usec", 0, 999999), w.int("drive_size", 0, 1 << 50)
    r.uint(0, 8, magic, "big")
    r.uint(8, 8, length, "big")
    k = w.pick("name length", [1, 5, 32])
    name = w.bytes("name", k)
    for i in range(k):
        w.assume(w.and_(name[i] > 0x20, name[i] < 0x7F))
    r.put(48, name)
    r.put(48 + k, b"\x00" * (32 - k))
    r.uint(96, 8, sec, "big")
    r.uint(104, 8, usec, "big")
    r.uint(112, 8, total, "big")
    fh.seek(w.int("havoc", 0, 1 << 40))
    d, err = w.call(VinumPhysicalDisk, fh)
    known = w.or_(*(magic == m for m in MAGICS + NO_MAGICS))
    if not w.fork(known):
        w.check(err is not None and isinstance(err, ValueError), "not a Vinum drive")
        w.reach("not vinum")
        return
    if err is not None:
        w.fail(f"opening a drive raised {type(err).__name__}: {err}")
    w.check(bool(d.active) == w.fork(w.or_(*(magic == m for m in MAGICS))), "in use or not")
    w.check(d.id == name, "id")
    w.check(d.name == name.decode(), "name")
    w.check(d.config_time == w.time(sec * 1000000 + usec), "time of the last update")
    w.check(d.offset == START, "start of the data")
    w.check(d.size == w.ite(total == 0, size, total), "size of the drive")
    fh.seek(w.int("havoc", 0, 1 << 40))
    for what, base in (("config", 4608), ("config2", 4608 + 65536)):
        w.check_bytes(getattr(d, what), length, lambda i: ("at", fh, base + i), what)
    w.reach("header")
    w.observe("size", d.size)


def jobs_p12(tier):
    out = []

    def plex(org, n, stripe, perm=None, shared=False):
        out.append({"name": f"{org}-n{n}-{stripe}" + ("-perm" if perm else "") + ("-shared" if shared else ""), "fn": "h_plex", "weight": n * 2,
                    "cfg": {"org": org, "n": n, "stripe": stripe, "perm": perm, "shared": shared}})

    def mirror(org, n, stripe, broken=None):
        out.append({"name": f"mirror-{org}-n{n}" + (f"-p{broken[0]}s{broken[1]}-{broken[2]}" if broken else ""), "fn": "h_mirror",
                    "weight": n * 2, "cfg": {"org": org, "n": n, "stripe": stripe, "broken": broken}})

    plex("concat", 1, 0)
    plex("concat", 2, 0)
    plex("concat", 3, 0, perm=[2, 0, 1])
    plex("striped", 2, 262144)
    plex("striped", 3, 65536, perm=[1, 2, 0])
    plex("striped", 2, 65536, shared=True)
    plex("raid5", 3, 262144)
    plex("raid5", 4, 65536, perm=[3, 1, 0, 2])
    mirror("concat", 1, 0)
    mirror("striped", 2, 65536)
    for st in ("down", "missing", "degraded", "initializing"):
        mirror("concat", 1, 0, [0, 0, st])
    mirror("concat", 1, 0, [1, 0, "down"])
    mirror("striped", 2, 65536, [0, 1, "down"])
    mirror("striped", 2, 65536, [0, 0, "missing"])
    mirror("striped", 2, 65536, [1, 0, "missing"])
    if tier == "thorough":
        plex("striped", 5, 4096, perm=[4, 2, 0, 1, 3])
        plex("raid5", 5, 512 * 521, perm=[4, 2, 0, 1, 3])
        plex("concat", 4, 0, perm=[3, 1, 0, 2])
        plex("raid5", 3, 65536, shared=True)
        mirror("striped", 3, 65536, [0, 2, "degraded"])
        mirror("raid5", 3, 65536)
    out.append({"name": "newest", "fn": "h_newest", "weight": 9, "cfg": {}})
    out.append({"name": "newest-inactive", "fn": "h_newest", "weight": 9, "cfg": {"inactive": True}})
    out.append({"name": "usable", "fn": "h_usable", "weight": 9, "cfg": {}})
    out.append({"name": "none", "fn": "h_none", "cfg": {}})
    out.append({"name": "header", "fn": "h_header", "cfg": {}})
    return out


PROPERTIES = {
    "P11": {
        "jobs": jobs_p11,
        "must_reach": ["volumes", "plexes", "sds", "stopped", "size", "number none", "number s", "number free"]
        + [f"state {s}" for s in ("UP", "DOWN", "INITIALIZING", "DEGRADED", "GROWABLE")]
        + [f"org {s}" for s in ("CONCAT", "STRIPED", "RAID5", "DISORG")],
        "bounds": "lines of up to 4 (thorough: 5) free bytes, and 1..4 free bytes placed inside line types, between tokens, after "
                  "values, at line starts and inside state, organisation and number words; numbers of any value up to 2^60, of either "
                  "sign, without unit, in sectors or with a free unit byte; two (thorough: three) keywords of every line type in every "
                  "order; two lines with free separators",
        "outside": "longer runs of free bytes, numerals with a minus sign behind their first digit",
    },
    "P12": {
        "jobs": jobs_p12,
        "must_reach": ["concat", "striped", "raid5", "mirror", "half mirror", "newest", "newest in use", "usable", "unusable",
                       "nothing usable", "not vinum", "header", "read-compared"],
        "bounds": "1..4 drives (thorough: 5) of up to 2^50 bytes, subdisks of free length and drive offset, drives and lines permuted, all "
                  "subdisks on one drive; stripes of 64 and 256 KiB (thorough: also 4 and 260.5 KiB); one plex of each organisation, two "
                  "plexes of 1 or 2 subdisks with one subdisk down, degraded, initializing or missing; three drives with configurations of "
                  "different, free age; reads of 1..700 bytes at any position; free header fields",
        "outside": "more than two plexes, both plexes incomplete, plexes whose subdisks leave gaps, the second copy of the configuration, "
                   "update times beyond 2^32 s",
    },
}
