"""Pieces shared by the harnesses.  Written for both worlds: every value may be a
plain integer or a symbolic one."""

from __future__ import annotations


def read_at(w, fh, size, oracle, tag, max_len, pos_hi=None, known=None, pos=None, length=None,
            radices=None):
    """Seek to an arbitrary position, read an arbitrary length, compare every byte.

    ``size``: expected size of the stream, or None when unlimited.
    """
    if pos is None:
        hi = pos_hi if pos_hi is not None else (1 << 50)
        pos = w.int(f"{tag}.pos", 0, hi) if radices is None else w.mixed(f"{tag}.pos", radices, hi)
    if length is None:
        length = w.int(f"{tag}.len", 1, max_len)
    if size is not None and pos_hi is None:
        w.assume(pos <= size + 16)
    _, err = w.call(fh.seek, pos)
    if err is not None:
        w.fail(f"{tag}: seek raised {type(err).__name__}")
    got, err = w.call(fh.read, length)
    if err is not None:
        w.fail(f"{tag}: read raised {type(err).__name__}: {err}")
    n = length
    if size is not None:
        if w.fork(pos >= size):
            n = 0
        elif w.fork(length > size - pos):
            n = size - pos
            w.reach("read-clipped-at-end")
    if known is not None:
        known = (known[0], lambda i, dev=known[1]: dev(pos + i))
    w.check_bytes(got, n, lambda i: oracle(pos + i), f"{tag}: bytes", known=known,
                  probe=None if radices is None else lambda name: w.mixed(f"{tag}.{name}", radices, 1 << 52) - pos)
    if not isinstance(n, int) or n:
        w.reach("read-compared")
    return pos, n


def must(w, what, f, *a, **k):
    """Run code that has to succeed."""
    v, err = w.call(f, *a, **k)
    if err is not None:
        w.fail(f"{what} raised {type(err).__name__}: {err}")
    return v
