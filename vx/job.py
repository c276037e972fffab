"""One harness under one configuration, explored over all its paths."""

from __future__ import annotations

import importlib
import logging
import time
import traceback

import z3

from vx import core
from vx.core import Bound, Deadline, Engine, Failed, PathEnd, SymBool, SymInt, Unsupported
from vx.symbytes import SymBytes, SymStr, SymText, SymTime, SymUUID, WriteAttempt


class Job:
    def __init__(self, name, module, fn, cfg, budget_s=120, max_ticks=20000, max_values=300, max_paths=100000,
                 witnesses=6, max_candidates=6, timeout_ms=20000, terminates=None, raw=False):
        self.name, self.module, self.fn, self.cfg = name, module, fn, cfg
        self.budget_s = budget_s
        self.max_ticks, self.max_values, self.max_paths = max_ticks, max_values, max_paths
        self.timeout_ms = timeout_ms
        self.max_witnesses, self.max_candidates = witnesses, max_candidates
        # Step budget exhaustion counts as non-termination, to be confirmed by replay
        self.terminates = terminates
        self.raw = raw
        self.reached = {}
        self.candidates = []
        self.witnesses = []
        self.known_seen = {}
        self.notes = {}
        self.world = None
        self.eng = None

    # -- called by the world -----------------------------------------------------------
    def inconclusive(self, what):
        self.notes[what] = self.notes.get(what, 0) + 1

    def assignment(self, m):
        values = {}
        for name, a in self.eng.path_vars.items():
            v = m.eval(a.z, model_completion=True).as_long()
            if not a.lo <= v <= a.hi:
                v = int(a.lo)
            values[name] = v
        bg = []
        for f in self.world.files:
            for off, b in f.bg_atoms.values():
                o = m.eval(off.z, model_completion=True).as_long() if isinstance(off, SymInt) else off
                v = m.eval(b.z, model_completion=True).as_long()
                bg.append([f.name, o, v % 256])
        return {"values": values, "bg": bg}

    def candidate(self, msg, m):
        if len(self.candidates) < self.max_candidates:
            self.candidates.append({"msg": msg, **self.assignment(m)})
        else:
            self.inconclusive("further candidates not recorded")

    # -- exploration -------------------------------------------------------------------
    def run(self):
        from vx import loader
        from vx.world import SymWorld

        logging.disable(logging.CRITICAL)
        loader.RAW_STREAMS = self.raw
        loader.install()
        t0 = time.monotonic()
        fn = getattr(importlib.import_module(self.module), self.fn)
        self.eng = eng = Engine(
            timeout_ms=self.timeout_ms,
            max_ticks=self.max_ticks,
            max_values=self.max_values,
            max_paths=self.max_paths,
            deadline=t0 + self.budget_s,
        )
        self.errors = []
        self.suspects = []

        def one():
            self.world = w = SymWorld(self)
            loader.restore()
            try:
                fn(w, **self.cfg)
                self.witness(w)
            except Failed:
                pass
            except Deadline:
                raise
            except Bound as e:
                if self.terminates and e.what == "step budget":
                    m = eng.ensure_model()
                    if m is not None:
                        self.candidate(f"no result after {self.max_ticks} steps", m)
                self.inconclusive(f"bound: {e.what}")
            except Unsupported as e:
                self.inconclusive(f"unsupported: {e}")
            except WriteAttempt as e:
                m = eng.ensure_model()
                self.candidate(str(e), m)
            except (PathEnd, core.Control):
                raise
            except RecursionError:
                self.inconclusive("recursion in the harness")
            except Exception as e:
                self.inconclusive("harness error")
                if len(self.suspects) < 2 and (m := eng.ensure_model()) is not None:
                    self.suspects.append({"msg": f"{type(e).__name__}: {e}", "exc": type(e).__name__, **self.assignment(m)})
                if len(self.errors) < 3:
                    self.errors.append(traceback.format_exc(limit=-8))
            if len(self.candidates) >= self.max_candidates:
                raise Stop

        try:
            eng.explore(one)
        except Stop:
            eng.incomplete.append("stopped after enough candidates")
        return {
            "name": self.name,
            "module": self.module,
            "fn": self.fn,
            "cfg": self.cfg,
            "stats": eng.stats,
            "functions": sorted(eng.functions),
            "incomplete": eng.incomplete,
            "notes": self.notes,
            "errors": self.errors,
            "suspects": self.suspects,
            "reached": self.reached,
            "candidates": self.candidates,
            "witnesses": self.witnesses,
            "known_seen": self.known_seen,
            "wall_s": time.monotonic() - t0,
        }

    def witness(self, w):
        if len(self.witnesses) >= self.max_witnesses:
            # keep a spread: replace pseudo-randomly but deterministically
            k = self.eng.stats["paths"]
            if k & (k - 1):
                return
        eng = self.eng
        if eng.replaying():
            return
        eng._declare(frozenset(eng.path_vars.values()))
        m = eng.ensure_model()
        if m is None:
            return
        wit = {**self.assignment(m), "observed": {k: evaluate(m, v) for k, v in w.observed.items()}}
        if len(self.witnesses) >= self.max_witnesses:
            self.witnesses[eng.stats["paths"].bit_length() % self.max_witnesses] = wit
        else:
            self.witnesses.append(wit)


class Stop(core.Control):
    pass


def evaluate(m, x):
    import datetime
    import enum
    import uuid

    def num(v):
        return m.eval(v.z, model_completion=True).as_long()

    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, SymInt):
        return num(x)
    if isinstance(x, SymBool):
        return z3.is_true(m.eval(x.z, model_completion=True))
    if isinstance(x, enum.Enum):
        return evaluate(m, x.value)
    if isinstance(x, int):
        return int(x)
    if isinstance(x, SymBytes):
        out = []
        for s in x.segs:
            n = num(s.n) if isinstance(s.n, SymInt) else s.n
            if n > 512:
                return None
            if hasattr(s, "file"):
                return None
            for i in range(n):
                b = s.byte(i)
                out.append(num(b) if isinstance(b, SymInt) else b)
        return bytes(out).hex()
    if isinstance(x, (bytes, bytearray)):
        return bytes(x).hex()
    if isinstance(x, SymStr):
        return "".join(chr(num(c) if isinstance(c, SymInt) else c) for c in x.v)
    if isinstance(x, SymText):
        h = evaluate(m, x.raw)
        return h if x.kind == "hex" or h is None else str(uuid.UUID(h))
    if isinstance(x, SymUUID):
        h = evaluate(m, x.raw)
        return None if h is None else str(uuid.UUID(h))
    if isinstance(x, uuid.UUID):
        return str(x)
    if isinstance(x, SymTime):
        return evaluate(m, x.us)
    if isinstance(x, datetime.datetime):
        d = x - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
        return (d.days * 86400 + d.seconds) * 1000000 + d.microseconds
    if isinstance(x, (list, tuple)):
        return [evaluate(m, i) for i in x]
    if isinstance(x, dict):
        return {str(k): evaluate(m, v) for k, v in x.items()}
    return f"<{type(x).__name__}>"
