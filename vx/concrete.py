"""The concrete side of a harness: the same harness code, run on the unmodified
modules under /repo by the ordinary interpreter, with inputs taken from a solver
model.  A counterexample counts only if it fails here too."""

from __future__ import annotations

import ctypes
import hashlib
import importlib
import io
import json
import resource
import signal
import sys
import traceback
from pathlib import Path


class CheckFailed(BaseException):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


class Assumption(BaseException):
    """The assignment lies outside the harness's assumptions."""


class WriteSeen(BaseException):
    pass


class TimedOut(BaseException):
    pass


BLOCK = 4096


class SparseFile(io.RawIOBase):
    def __init__(self, world, name, size, fill):
        super().__init__()
        self.world, self.name, self.length, self.fill = world, name, size, fill
        self.over = {}
        self.blocks = {}
        self.pos = 0

    def _block(self, b):
        d = self.blocks.get(b)
        if d is None:
            if self.fill is not None:
                d = bytearray([self.fill]) * BLOCK
            else:
                d = bytearray(hashlib.shake_128(f"{self.world.seed}:{self.name}:{b}".encode()).digest(BLOCK))
            base = b * BLOCK
            if len(self.over) < BLOCK:
                for k, v in self.over.items():
                    if base <= k < base + BLOCK:
                        d[k - base] = v
            else:
                for i in range(BLOCK):
                    if base + i in self.over:
                        d[i] = self.over[base + i]
            self.blocks[b] = d
        return d

    def set(self, off, data):
        for i, v in enumerate(data):
            self.over[off + i] = v
        for b in range(off // BLOCK, (off + len(data)) // BLOCK + 1):
            self.blocks.pop(b, None)

    def byte(self, off):
        return self._block(off // BLOCK)[off % BLOCK]

    def at(self, off, n):
        out = []
        while n > 0:
            b, d = divmod(off, BLOCK)
            k = min(n, BLOCK - d)
            out.append(bytes(self._block(b)[d : d + k]))
            off += k
            n -= k
        return b"".join(out)

    def readable(self):
        return True

    def seekable(self):
        return True

    def writable(self):
        return False

    def seek(self, pos, whence=0):
        if whence == 0:
            if pos < 0:
                raise ValueError("negative seek value")
            self.pos = pos
        elif whence == 1:
            self.pos = max(0, self.pos + pos)
        else:
            if self.length is None:
                raise OSError("unbounded file")
            self.pos = max(0, self.length + pos)
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        if n is None or n < 0:
            n = max(0, self.length - self.pos)
        elif self.length is not None:
            n = max(0, min(n, self.length - self.pos))
        if n > (1 << 28):
            raise MemoryError("read of more than 256 MiB")
        d = self.at(self.pos, n)
        self.pos += n
        return d

    def readinto(self, b):
        d = self.read(len(b))
        b[: len(d)] = d
        return len(d)

    def write(self, *a):
        raise WriteSeen(f"write to {self.name}")

    truncate = writelines = write


class _Region:
    def __init__(self, world, file, base, length, name):
        self.file, self.base, self.length = file, base, length
        self.name = f"{file.name}.{name}"
        # Unassigned bytes of a region are zero; assigned ones come from the model
        file.set(base, b"\x00" * length)
        for key, v in world.values.items():
            if key.startswith(self.name + "["):
                spec = key[len(self.name) + 1 : -1]
                if ":" in spec:
                    off, t = spec.split(":")
                    size, endian = int(t[:-1]), "little" if t[-1] == "l" else "big"
                else:
                    off, size, endian = spec, 1, "little"
                file.set(base + int(off, 16), v.to_bytes(size, endian))

    def put(self, off, data):
        self.file.set(self.base + off, data)

    def uint(self, off, size, value, endian="little"):
        self.file.set(self.base + off, int(value).to_bytes(size, endian))

    def byte(self, off):
        return self.file.byte(self.base + off)

    def get(self, off, size, endian="little"):
        return int.from_bytes(self.file.at(self.base + off, size), endian)


class ConcreteWorld:
    symbolic = False

    def __init__(self, values, bg=(), seed=0):
        self.values = values
        self.bg = bg
        self.seed = seed
        self.fresh = 0
        self.nregion = {}
        self.observed = {}
        self.known = set()

    def int(self, name, lo, hi):
        v = self.values.get(name)
        if v is None:
            v = min(max(0, lo), hi)
        if not lo <= v <= hi:
            raise Assumption(name)
        return v

    def pick(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.values.get(f"?{name}", 0)]

    def mixed(self, name, radices, hi):
        value, weight = 0, 1
        for k, (radix, _) in enumerate(radices):
            value += self.values.get(f"{name}.{k}", 0) * weight
            weight *= radix
        value += self.values.get(f"{name}.q", 0) * weight
        if value > hi:
            raise Assumption(name)
        return value

    def flag(self, name):
        return self.values.get(name, 0) == 1

    def file(self, name, size=None, fill=None):
        f = SparseFile(self, name, size, fill)
        for fname, off, v in self.bg:
            if fname == name:
                f.set(off, bytes([v]))
        return f

    def region(self, file, base, length, name=None):
        if name is None:
            name = self.nregion.get(file.name, 0)
        self.nregion[file.name] = self.nregion.get(file.name, 0) + 1
        return _Region(self, file, base, length, name)

    def bytes(self, name, n):
        return bytes(self.values.get(f"{name}[{i:#x}]", 0) for i in range(n))

    def assume(self, cond):
        if not cond:
            raise Assumption

    def numeral(self, value):
        return str(value)

    def raw(self, region, off, n):
        return region.file.at(region.base + off, n)

    def uuid(self, raw, le=False):
        import uuid

        return uuid.UUID(bytes_le=raw) if le else uuid.UUID(bytes=raw)

    def uuid_text(self, raw, le=False):
        return str(self.uuid(raw, le))

    def char(self, code):
        return chr(code)

    def hex(self, raw):
        return raw.hex()

    def time(self, us):
        import datetime

        return datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(microseconds=us)

    @staticmethod
    def and_(*xs):
        return all(bool(x) for x in xs)

    @staticmethod
    def or_(*xs):
        return any(bool(x) for x in xs)

    @staticmethod
    def not_(x):
        return not x

    @staticmethod
    def implies(a, b):
        return (not a) or bool(b)

    @staticmethod
    def iff(a, b):
        return bool(a) == bool(b)

    @staticmethod
    def ite(c, a, b):
        return a if c else b

    def fork(self, cond):
        return bool(cond)

    def concrete(self, x):
        return x

    def min(self, a, b):
        return min(a, b)

    def call(self, f, *a, **k):
        try:
            return f(*a, **k), None
        except Exception as e:
            return None, e

    def reach(self, label):
        pass

    def check(self, cond, msg, known=None):
        if cond:
            return
        if known is not None and known[1]:
            self.known.add(known[0])
            return
        raise CheckFailed(msg)

    def fail(self, msg, known=None):
        self.check(False, msg, known)

    def observe(self, name, value):
        self.observed[name] = value

    def probe(self, n):
        self.fresh += 1
        i = self.values.get(f"probe{self.fresh}", 0)
        if not 0 <= i < n:
            raise Assumption("probe")
        return i

    def check_bytes(self, got, n, oracle, msg, known=None, probe=None):
        if not isinstance(got, (bytes, bytearray, memoryview)):
            raise CheckFailed(f"{msg}: not a byte string")
        self.check(len(got) == n, f"{msg}: length {len(got)}, expected {n}")
        if n <= 0:
            return
        self.fresh += 1
        p = self.values.get(f"probe{self.fresh}") if probe is None else max(0, probe(f"probe{self.fresh}"))
        if n <= 2048:
            idx = range(n)
        else:
            idx = {0, n - 1, n // 2, *range(0, n, max(1, n // 512)), *range(511, n, max(512, n // 512 // 512 * 512))}
            if p is not None and p < n:
                idx |= {p, max(0, p - 1), min(n - 1, p + 1)}
            idx = sorted(idx)
        for i in idx:
            if self.same(got[i], oracle(i)):
                continue
            if known is not None and self.same(got[i], known[1](i)):
                self.known.add(known[0])
                continue
            raise CheckFailed(f"{msg}: byte {i} of {n}")

    def same(self, b, want):
        if want[0] == "any":
            return any(self.same(b, w) for w in want[1])
        if want[0] == "byte":
            return b == want[1]
        return b == want[1].byte(want[2])


def plain(x):
    """A JSON-able rendering of an observed value."""
    import datetime
    import enum
    import uuid

    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, enum.Enum):
        return plain(x.value)
    if isinstance(x, int):
        return int(x)
    if isinstance(x, (bytes, bytearray)):
        return bytes(x).hex()
    if isinstance(x, uuid.UUID):
        return str(x)
    if isinstance(x, datetime.datetime):
        d = x - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
        return (d.days * 86400 + d.seconds) * 1000000 + d.microseconds
    if isinstance(x, (list, tuple)):
        return [plain(i) for i in x]
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    return f"<{type(x).__name__}>"


def run_one(fn, cfg, values, bg, seeds, timeout):
    """Outcome of one assignment: {"result": "pass"|"fail"|"assumption"|"timeout"|"error", ...}"""
    last = {"result": "pass"}
    for seed in seeds:
        w = ConcreteWorld(values, bg, seed)

        def alarm(*_):
            raise TimedOut

        signal.signal(signal.SIGALRM, alarm)
        # Again every second: what is raised inside a destructor or a callback can get lost
        signal.setitimer(signal.ITIMER_REAL, timeout, 1.0)
        try:
            fn(w, **cfg)
            last = {"result": "pass", "observed": plain(w.observed), "known": sorted(w.known)}
        except CheckFailed as e:
            return {"result": "fail", "msg": e.msg, "seed": seed}
        except Assumption as e:
            return {"result": "assumption", "msg": str(e)}
        except WriteSeen as e:
            return {"result": "fail", "msg": str(e), "seed": seed}
        except TimedOut:
            return {"result": "timeout", "msg": f"no result within {timeout} s", "seed": seed}
        except (Exception, RecursionError) as e:
            return {"result": "error", "exc": type(e).__name__, "msg": traceback.format_exc(limit=-6)}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    return last


def main():
    """Reads a request per line (JSON), writes an outcome per line; or runs the request in the file named."""
    ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)  # PR_SET_PDEATHSIG: do not outlive the check
    out = sys.stdout
    sys.stdout = sys.stderr = open("/dev/null", "w")  # noqa: SIM115
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    for line in [Path(sys.argv[1]).read_text()] if sys.argv[1:] else sys.stdin:
        req = json.loads(line)
        fn = getattr(importlib.import_module(req["module"]), req["fn"])
        res = run_one(
            fn, req["cfg"], req["values"], req.get("bg", ()), req.get("seeds", [1, 2]), req.get("timeout", 20)
        )
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
