#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, with statement, bounds and planted changes taken from where they are kept.

Run as: cd /verif && PYTHONPATH=. python3-vt tools/design.py"""

import importlib
import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
sys.path.insert(0, str(ROOT / "tools"))

from props import PROPS  # noqa: E402

HEAD = """# Design

What is checked, how, within which bounds, and what is left out.  The per-property part and the tables are written by
`tools/design.py` from the property texts (`tools/props.py`), the bounds next to the harnesses (`checks/*.py`), the list
of findings (`known_findings.jsonl`) and the planted changes (`seeded/`).

## 1. The method

Every property is decided the same way:

1. The modules under `/repo/dissect/volume` (and `dissect.util.stream` and `dissect.cstruct` structure definitions they
   use) are parsed from their source **as it is at the time of the run** and loaded through an AST transformation
   (`vx/loader.py`).  Nothing is copied into `/verif`, there is no hand-written model of the code under test.
2. A *harness* (`checks/*.py`) builds a source - a disk, a set of members, a metadata text - in which sizes, offsets,
   counts, ids, flags, text bytes and file contents are symbolic, then calls only the public API (`Disk(...)`,
   `MD([...])`, `LVM2(...)`, `.open()`, `.read()`, ...) and asserts what the property says.
3. `vx/core.py` executes the real functions on these values.  Every branch on a symbolic condition is explored
   depth-first by re-execution; infeasible sides are pruned by Z3.  Every assertion on every path is a Z3 query
   "path condition and not assertion": `unsat` on all of them means that the property holds for **all** values in the
   bounds on **all** paths, not for a sample.
4. A `sat` answer is turned into concrete values and replayed: the same harness runs in the ordinary interpreter on the
   unmodified code with sparse in-memory files (`vx/concrete.py`).  Only a reproduced failure is reported as
   `VIOLATION property=<id> replay=<path>`; the replay file holds the harness, configuration and values, and
   `./replay <path>` runs it again.  A candidate that does not reproduce, in a second run without
   contracts either, prints an `INCONCLUSIVE` line and counts in the evidence, but is never a violation.
5. Vacuity is guarded in two ways: every harness has goals (`must_reach`) that some explored path must satisfy, and from
   every job solver models of passing paths are replayed concretely (`traces_validated_against_impl`): the concrete
   run must agree with what the symbolic run said about that path.  A goal that is not reached, or a crash of the
   engine, ends with exit 2; a disagreement prints an `INCONCLUSIVE` line.  An exception that ends a harness (say, because an
   attribute that callers use is gone) is replayed as well and is a violation if the ordinary interpreter raises it too.
6. `unknown` from the solver, an exhausted budget or an operation the engine does not support makes the path or job
   inconclusive.  Exit 0 means that nothing explored violates the property; what was not decided is counted in the
   evidence (`inconclusive`, `incomplete`, `solver_unknown`) and on the last line of output.  "Left open" under "cost"
   in section 2 is their sum on the current tree.

Evidence files give the functions encoded, paths, queries, solver time, bounds, what lies outside, replayed samples and
the time per job.

### Oracles

No oracle is derived from the code under test.  Each harness writes the source from the *description of the format* and
computes from the same symbolic quantities, by a short independent formula, where a byte must come from or which value a
field must have: Linux MD's `raid5_compute_sector`, `raid10` and `raid0` geometry rules restated as closed formulas, the
SNIA DDF, GPT, UEFI, MBR/EBR, APM, disklabel, LVM2, device-mapper thin and VSS layouts.  The comparison of data is per
byte of the answer: for a read of symbolic length at a symbolic position a *probe* index is universally quantified
(a fresh symbol) and the returned byte at the probe must be the byte of the file the formula names.  Member contents are
uninterpreted functions of the offset, so "right byte" means right file and right offset.

### What the engine does with Python

* Integers are Z3 integers with intervals; divisors and moduli are concrete, quotients and remainders are fresh
  variables tied by linear constraints (`w.mixed` hands out numbers already split that way).  Sizes like stripe size or
  extent size therefore come from the listed sets; everything else stays free.
* Bytes, bytearrays, memoryviews (with aliasing), `str`, UUIDs, datetimes (as exact fractions) and texts with symbolic
  characters are rope-like values; dict and set lookups with symbolic keys fork over the stored keys.  Regular
  expressions and `ast.literal_eval` on symbolic text run on small models (`vx/sre.py`) of the documented behaviour.
  `%`/f-string formatting of a symbolic number gives a placeholder text (only ever used in error messages and names).
* `functools.lru_cache` and `cached_property` are modelled, not bypassed: a cache keyed by the wrong thing is a defect
  P18 and P25 see.  Module globals, class attributes, mutable defaults and caches are restored between paths.
* Files are symbolic sources with a position; the position is set to a fresh unknown before every call into the code, so
  code that relies on where someone else left a file is found.  Writing to a source is a violation in every check.
* dissect.util's `RangeStream`, `MappingStream` and `RunlistStream` are replaced by contracts (same bytes, same
  end-of-stream behaviour) in most jobs, because their buffering multiplies paths; designated `raw` jobs run them as
  written, and every `AlignedStream` subclass of the repository itself always runs as written.  A job whose candidates
  do not reproduce is run again without the contracts (the real buffering can hide what a contract shows, and the second
  run then finds the values for which it does not).
* Loops are bounded by a step budget per path.  In P24 an exhausted budget is the violation looked for and is confirmed
  by a replay that does not return in 15 s; elsewhere it is inconclusive.

### Trusted

Z3; the models above (checked every run by the replays, and by the fact that counterexamples are replayed); the
ordinary interpreter for replays; `dissect.cstruct` (structures are decoded by `vx/cs.py` from the definitions the
repository gives to cstruct; the concrete replays go through the real one).

### Outside of all checks

Concurrent use from several threads (the code has no locking and makes no promise); performance except termination
(P24); sources that raise on read; log output.  `dissect/volume/ldm.py` consists of structure definitions only - there
is no behaviour to check.  Nothing is listed under `not_applicable`: no property was given up for the technique.
Parts of the code left out of a property are named with its bounds below.

## 2. The properties
"""

ORACLE = {
    "P01": ("Piecewise sum: member k covers [sum of sizes before k, ...); byte = member k at its data start plus the rest.",
            "Reads across members, with data starts, at any of 2^41 positions; the tests read the beginning of one image."),
    "P02": ("MD's create_strip_zones/find_zone/map_sector restated: zone boundaries from the sorted distinct member sizes, "
            "member = chunk number modulo members in the zone (counted in the set or in the zone, by layout).",
            "Multi-zone sets, members of odd sizes and both layouts do not occur in the samples."),
    "P03": ("Byte of some present member at data start + position, members equal by construction.",
            "Every subset of members and every data start."),
    "P04": ("For row r and column c the parity slot of the layout, data slots counted around it (symmetric) or in order "
            "(asymmetric), from the MD documentation.",
            "Every row of every rotation, every read crossing chunks; one layout only in the samples."),
    "P05": ("As P04 with P and Q slots, for MD, DDF and RAID5-plus-Q layouts.",
            "Fourteen layouts, most of which no sample has."),
    "P06": ("Set of (member, offset) pairs that hold a copy of the chunk under the near/far/offset rule; the byte read must be "
            "at one of them.", "Copies that do not divide the members; far and offset layouts; all three far-set variants."),
    "P07": ("Either an exception, or the byte of the complete set; too few members must raise.",
            "Absence patterns are combinatorial, the tests have complete sets."),
    "P08": ("Superblock fields written by the harness at the place the format prescribes for the device size.",
            "Every device size (rounding of the 0.90 and 1.0 places), every slot and state."),
    "P09": ("Geometry of the superblock with the highest update count; placement by role; then the mapping of P01-P06.",
            "Orders of devices, stale members, spares, interleaved sets."),
    "P10": ("DDF sections written at free LBAs; each byte of a virtual disk from the record's disk, start and strip rule.",
            "Table positions, unused slots, strip sizes and disk orders are free."),
    "P11": ("A tokenizer and line grammar restated after the kernel's parser, executed on the same symbolic bytes.",
            "All lines of up to 5 free bytes and free bytes in every kind of place, not a handful of samples."),
    "P12": ("Newest configuration by time, subdisks by plex offset, stripes/concatenation/RAID5 rule, drive offset + header.",
            "Ages, orders and states of drives and objects are combinatorial."),
    "P13": ("Entries in table order, chain followed by the EBR rule.", "Free sectors, positions and types; chains with holes."),
    "P14": ("Entry i at table LBA + i * entry size; used iff type GUID nonzero.", "Entry sizes, free tables, hybrid MBRs."),
    "P15": ("Entry i in block i + 1 of the declared size.", "Block sizes other than the one sample's."),
    "P16": ("Slot extents from the label, relative to slot c (32 bit) or as bytes (64 bit).", "Free labels of both kinds."),
    "P17": ("Order of schemes as stated; inner partitions replace the slice.", "Combinations of nested schemes."),
    "P18": ("Linear search over the entries the harness stored.", "All key orders, depths and node fill states."),
    "P19": ("Block map as a list of entries; zeros elsewhere.", "Mixes of mapped and unmapped blocks, several devices."),
    "P20": ("Header, area list and circular text as written by the harness.", "Label and area positions, wrapped text."),
    "P21": ("The tree the text was printed from.", "Every number and every printable character in the texts."),
    "P22": ("Segment table to physical extents, chunk interleave, mapping tree.", "Segment orders, extents, missing devices."),
    "P23": ("Overlay bits, own descriptor, newer store, volume - evaluated by the stated precedence.",
            "Descriptor kinds and chains of stores are combinatorial, no sample exists."),
    "P24": ("Step budget per path, confirmed by a replay that does not return.",
            "Loops need damaged metadata; tests have sound images."),
    "P25": ("The bytes of one read at each position; positions from a two-line model of seek and tell.",
            "State carried between reads (buffers, caches, file positions) needs histories, tests read once."),
}

MID = """
## 3. Defects found

Repaired ones are separate `fix:` commits in `/repo`, each touching only what the defect needs, with the existing tests
unchanged and passing; the others print a `KNOWN-FINDING` line and the check asserts "as specified, or exactly the known
deviation", so that any other deviation is still a violation.

| id | state | what |
|---|---|---|
"""

NOTES = """
Why the open ones are not repaired: K-P09-component-size, K-P09-kib, K-P14-size and K-P21-dev-size are expected by
existing tests (which must stay as they are); K-P10-concat-extent and K-P12-concat need a length in the member map that
all array formats share; K-P22-external-origin is a missing feature.

Seen while reading, outside of the stated properties and left alone:

* The stream of a RAID1 volume is as large as its member, not as the volume.  Clipping it to `vd.size` would lose data as
  long as K-P09-kib is open.  P03 speaks of positions inside the volume.
* A member that ends before its recorded size makes striped reads append the next chunk right behind the short one
  (dissect.util's MappingStream does the same).  P24 only requires that such reads end.
* The numbers of logical partitions can coincide with those of primaries behind the extended one.
* GPT and APM assume that the source starts at position 0 (MBR does not).
* Reading a forwarded VSS block prints a line.
* Members of parity and RAID10 sets that fell behind are still read (mirrors are not, F-P09-behind).
* The names of DDF virtual disks come from records without a sequence number: the disk given last decides.
* VSS bitmaps and range lists of several blocks, and the reverse lookup of forwarders, are checked as far as P23 states
  them; whether Windows writes other combinations could not be compared without images.
* `LVM2Device.read_sectors` does not clip at the end of the data area.
* RAID10 with an absent member raises KeyError even if a copy is there (an error, not wrong bytes).
* A LVM text line that is a lone `#` with nothing behind it is joined to the next line.

### Alarms that were wrong, and what was done

A check that raised an alarm on right code was corrected in its specification or harness, never by listing it:

* P11: numerals like `1-2` are malformed; what the parser makes of them is unspecified -
  the oracle only speaks about well-formed numerals.
* P17: the first oracle for hybrid tables did not expect the plain MBR entries next to those of the GPT; P14 states them.
* P25: the harness took `vd.size` as the size of a RAID1 stream (see above); members are now exactly the volume's size.
* P24: VSS lists through a store need more than 50000 steps for the bitmaps alone; budget raised for those jobs.

## 4. Planted changes

`seeded/<id>` holds changes that keep all stable tests passing and break one property.  `tools/trybug.sh <id>` builds,
runs demo and check on `/repo`; `tools/trycopy.sh <id>` does so on a scratch copy; `tools/seedtests.sh` runs the stable
tests with each.  They were written from property text and code; no check reads them.  All of these were caught by the
quick check of their property when last tried:

| change | property | needs |
|---|---|---|
"""

TAIL = """
Besides these, single-token changes of the source (operators, constants, conditions, dropped statements) that keep the
stable tests passing were made at random and run through the checks.  What they missed was looked at one by one; apart
from changes without effect and from changed names of partition types this led to: default sector sizes of the partition
schemes (P13-P16), and metadata with lines that are comments (P21).

Rewrites that keep the behaviour (other loops, generators, `bisect`, `struct`, `match`, regular expressions, dictionaries as
caches, splitting and merging of functions; 25 of them over all modules) were tried in the same way on scratch copies: the
checks have to stay quiet.  They did, except that dictionary stores in chained assignments were not seen by the engine
(inconclusive, now supported).

Changes that were missed at first, and what was added to the checks: `vss-overlay-merge` (several overlays of one block, and
unused descriptors of every former kind, in P23), `ddf-spare-slot` (records with unused slots, in P10; this also found
ffda120), `disk-protective-only` (hybrid tables, in P17), `lvm-equals-in-text` (symbolic text in `literal_eval` was
inconclusive, now modelled), `lvm-type-flags` (segment types with flags, in P22).  The nine changes to
histories of reads and damaged sources (`raid5-skip-seek` ... `lvm-open-list`) were caught by P24/P25 as they stood.

## 5. Running

`./check <id> [--tier quick|thorough]`; evidence in `evidence/<id>.json`.  The quick tier runs every job in parallel on
the available cores with 300 s per job and 760 s in all; the thorough tier widens member counts, stripe sizes, chain
lengths and numbers of free characters as named under "bounds".  `setup` only checks that the tools are there: nothing is
built ahead of time, because the encoding is made from the source at each run.
"""


def main():
    registry = json.loads((ROOT / "checks/registry.json").read_text())
    costs = json.loads((ROOT / "tools/costs.json").read_text())
    out = [HEAD]
    for p in PROPS:
        spec = importlib.import_module("checks." + registry[p["id"]]).PROPERTIES[p["id"]]
        oracle, why = ORACLE[p["id"]]
        cost = costs.get(p["id"], {})
        out.append(f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n")
        out.append(f"* Oracle: {oracle}\n* Bounds: {spec['bounds']}.\n* Outside: {spec['outside']}.")
        out.append("* Cost: " + "; ".join(
            f"{t} {c['wall']:.0f} s, {c['jobs']} jobs, {c['paths']} paths, {c['queries']} queries, {c['solver']:.0f} s in the solver, "
            f"{c['open']} left open"
            for t, c in sorted(cost.items())) + " (8 cores).")
        out.append(f"* Why tests do not settle it: {why}")
        out.append("* Anchored at: " + ", ".join(f"`{n}`" for n, _ in p["mechanism"]) + ".\n")
    out.append(MID.rstrip("\n"))
    for line in (ROOT / "known_findings.jsonl").read_text().splitlines():
        f = json.loads(line)
        out.append(f"| {f['id']} | {f['status']} | {f['what'].removeprefix('fixed: ')} |")
    out.append(NOTES.rstrip("\n"))
    rows = []
    for d in (ROOT / "seeded").iterdir():
        m = json.loads((d / "meta.json").read_text())
        rows.append((m["property"], d.name, m["needs"]))
    out += [f"| {n} | {p} | {needs} |" for p, n, needs in sorted(rows)]
    out.append(TAIL)
    (ROOT / "DESIGN.md").write_text("\n".join(out))


main()
