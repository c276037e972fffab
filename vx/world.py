"""The symbolic side of a harness: inputs are solver variables, checks are
solver queries."""

from __future__ import annotations

import z3

from vx import core
from vx.core import Control, Failed, SymBool, SymInt, engine, var
from vx.symbytes import Fill, Ref, Region, SymBytes, SymFile, Vec, WriteAttempt, to_sym


class SymWorld:
    symbolic = True

    def __init__(self, job):
        self.job = job
        self.fresh = 0
        self.files = []
        self.observed = {}
        self.picked = {}
        self.fresh_numeral = 0
        from vx import loader

        loader._numerals.clear()

    # -- inputs --------------------------------------------------------------------
    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return var(name, lo, hi)

    def pick(self, name, options):
        """One of a few concrete alternatives (each explored)."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[engine().concretize(var(f"?{name}", 0, len(options) - 1))]

    def mixed(self, name, radices, hi):
        """An integer 0..hi, written in mixed radix so that division by the radices is linear.

        ``radices``: least significant first, as (radix, split); split digits are case-split.
        """
        value, weight = 0, 1
        for k, (radix, split) in enumerate(radices):
            d = var(f"{name}.{k}", 0, radix - 1) if radix > 1 else 0
            if split:
                d = engine().concretize(d)
            value = value + d * weight
            weight *= radix
        value = value + var(f"{name}.q", 0, hi // weight) * weight
        if hi % weight != weight - 1:
            engine().assume(value <= hi)
        return value

    def flag(self, name):
        return var(name, 0, 1) == 1

    def file(self, name, size=None, fill=None):
        f = SymFile(name, size, fill)
        self.files.append(f)
        return f

    def region(self, file, base, length, name=None):
        return _SymRegion(file.region(base, length, name))

    def bytes(self, name, n):
        """``n`` unconstrained bytes."""
        r = Region(name, 0, n)
        return SymBytes([Vec([r.byte(i) for i in range(n)])])

    def assume(self, cond):
        engine().assume(cond)

    def numeral(self, value):
        """Decimal text standing for ``value`` when the code converts it to an integer."""
        if not isinstance(value, SymInt):
            return str(value)
        from vx import loader

        self.fresh_numeral += 1
        text = str(987650000000 + self.fresh_numeral)
        loader._numerals[text] = value
        return text

    def raw(self, region, off, n):
        return SymBytes([Vec([region.byte(off + i) for i in range(n)])])

    def uuid(self, raw, le=False):
        from vx.symbytes import SymUUID

        return SymUUID.make(bytes_le=raw) if le else SymUUID.make(bytes=raw)

    def uuid_text(self, raw, le=False):
        from vx.symbytes import SymText

        return SymText("uuid", self.uuid(raw, le).raw)

    def char(self, code):
        from vx.symbytes import SymStr, simplify_str

        return simplify_str(SymStr([code]))

    def hex(self, raw):
        return to_sym(raw).hex()

    def time(self, us):
        from vx.symbytes import SymTime

        return SymTime(us)

    # -- logic -----------------------------------------------------------------------
    and_ = staticmethod(core.and_)
    or_ = staticmethod(core.or_)
    not_ = staticmethod(core.not_)
    implies = staticmethod(core.implies)
    iff = staticmethod(core.iff)
    ite = staticmethod(core.ite)

    def fork(self, cond):
        return bool(cond)

    def concrete(self, x):
        from vx.symbytes import concrete

        return concrete(x)

    def min(self, a, b):
        return core.ite(a < b, a, b)

    # -- running the code --------------------------------------------------------------
    def call(self, f, *a, **k):
        """Run code under test; returns (value, exception)."""
        try:
            return f(*a, **k), None
        except Exception as e:
            return None, e
        except RecursionError as e:
            return None, e

    # -- outcomes ----------------------------------------------------------------------
    def reach(self, label):
        if not engine().replaying():
            self.job.reached[label] = self.job.reached.get(label, 0) + 1

    def check(self, cond, msg, known=None):
        """Assert ``cond`` for every input on this path.

        ``known``: (finding id, condition) - the exact deviation of a recorded finding.
        """
        eng = engine()
        if eng.replaying():
            # Decided on an earlier pass over this prefix
            return
        cond2 = cond
        if known is not None:
            kid, dev = known
            cond2 = core.or_(cond, dev)
            if kid not in self.job.known_seen:
                r, m = eng.failing_model(core.not_(core.and_(core.not_(cond), dev)))
                if r == "fail":
                    self.job.known_seen[kid] = self.job.assignment(m)
        r, m = eng.failing_model(cond2)
        if r == "ok":
            return
        if r == "unknown":
            self.job.inconclusive(f"solver unknown: {msg}")
            return
        self.job.candidate(msg, m)
        raise Failed

    def fail(self, msg, known=None):
        self.check(False, msg, known)

    def observe(self, name, value):
        self.observed[name] = value

    def probe(self, n):
        """A fresh index 0 <= i < n."""
        self.fresh += 1
        i = var(f"probe{self.fresh}", 0, 1 << 62)
        engine().assume(i < n)
        return i

    def check_bytes(self, got, n, oracle, msg, known=None, probe=None):
        """``got`` is ``n`` bytes and byte i is what ``oracle(i)`` says, for every i.

        The oracle returns ("at", file, offset), ("byte", value) or ("any", [..]).
        """
        if isinstance(got, (bytes, bytearray)):
            length = len(got)
        elif isinstance(got, SymBytes):
            length = got.n
        else:
            self.fail(f"{msg}: not a byte string")
        self.check(length == n, f"{msg}: length")
        if not self.fork(n > 0):
            return
        if probe is None:
            i = self.probe(n)
        else:
            self.fresh += 1
            i = probe(f"probe{self.fresh}")
            engine().assume(core.and_(i >= 0, i < n))
        seg, j = to_sym(got).locate(i)
        want = oracle(i)
        ok = self.same(seg, j, want)
        if known is not None:
            kid, dev_oracle = known
            self.check(ok, msg, (kid, self.same(seg, j, dev_oracle(i))))
        else:
            self.check(ok, msg)

    def same(self, seg, j, want):
        kind = want[0]
        if kind == "any":
            return core.or_(*(self.same(seg, j, w) for w in want[1]))
        if kind == "byte":
            return seg.byte(j) == want[1]
        _, file, off = want
        if isinstance(seg, Ref):
            r1, _ = seg.file.resolve(seg.off + j)
            r2, _ = file.resolve(off)
            if r1 is None and r2 is None and file.bg is None and seg.file.bg is None:
                return (seg.off + j == off) if seg.file is file else False
            return seg.byte(j) == file.byte(off)
        r2, _ = file.resolve(off)
        if r2 is None and file.bg is None:
            # opaque content can take any value: a constant is never right for all contents
            return False
        return seg.byte(j) == file.byte(off)


class _SymRegion:
    def __init__(self, r):
        self.r = r

    def put(self, off, data):
        if any(off + i in self.r.atoms for i in range(len(data))):
            raise ValueError("part of the region is set already")
        if isinstance(data, SymBytes):
            for i, b in enumerate(data.explicit()):
                self.r.concrete[off + i] = b
        else:
            self.r.set(off, data)

    def uint(self, off, size, value, endian="little"):
        if isinstance(value, int):
            self.r.set(off, value.to_bytes(size, endian))
            return
        if isinstance(value, SymBool):
            value = value.as_int()
        for i in range(size):
            self.r.concrete.pop(off + i, None)
            self.r.atoms[off + i] = (off, size, endian, value)

    def byte(self, off):
        return self.r.byte(off)

    def get(self, off, size, endian="little"):
        return self.r.uint(off, size, endian)
