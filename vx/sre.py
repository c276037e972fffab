"""Regular expressions and Python literals over symbolic text."""

from __future__ import annotations

import ast
import re

from vx.core import SymInt, Unsupported, and_, or_
from vx.symbytes import SymBytes, SymStr, Vec, concrete, simplify, simplify_str

C = re._constants


def codes(s):
    if isinstance(s, SymStr):
        return s.v
    if isinstance(s, SymBytes):
        return s.explicit()
    return [ord(c) for c in s] if isinstance(s, str) else list(s)


def is_text(s):
    return isinstance(s, (str, SymStr))


def wrap(v, text):
    return simplify_str(SymStr(v)) if text else simplify(SymBytes([Vec(list(v))])) if v else b""


class Matcher:
    """Backtracking matcher over the parse tree of the real ``re`` module; every test of a character forks."""

    def __init__(self, pattern, s):
        self.text = is_text(s)
        self.v = codes(s)
        self.tree = re._parser.parse(pattern.pattern, pattern.flags)
        self.flags = pattern.flags
        if self.flags & (re.LOCALE | re.DEBUG):
            raise Unsupported("regular expression flags")
        self.memo = {}

    def chars(self, key, test):
        """Whether a character is in the class, decided over the characters the class is made of below 256."""
        if isinstance(key, int):
            return bool(test.fullmatch(chr(key) if self.text else bytes([key])))
        hit = [c for c in range(256) if test.fullmatch(chr(c) if self.text else bytes([c]))]
        if self.text and bool(key >= 256):
            return bool(test.fullmatch(concrete(SymStr([key]))))
        inside = []
        for c in hit:
            if inside and inside[-1][1] == c - 1:
                inside[-1][1] = c
            else:
                inside.append([c, c])
        return bool(or_(*(key == lo if lo == hi else and_(key >= lo, key <= hi) for lo, hi in inside))) if inside else False

    def class_of(self, op, arg):
        k = (op, repr(arg))
        if k not in self.memo:
            self.memo[k] = _compile(op, arg, self.flags, self.text)
        return self.memo[k]

    def run(self, start):
        """Match at ``start``: (end, groups) or None."""
        return self.seq(list(self.tree), 0, start, {}, lambda i, g: (i, g))

    def seq(self, items, k, i, g, cont):
        if k == len(items):
            return cont(i, g)
        op, arg = items[k]
        nxt = lambda j, h: self.seq(items, k + 1, j, h, cont)  # noqa: E731
        if op in (C.LITERAL, C.NOT_LITERAL, C.IN, C.ANY):
            if i < len(self.v) and self.chars(self.v[i], self.class_of(op, arg)):
                return nxt(i + 1, g)
            return None
        if op is C.AT:
            return nxt(i, g) if self.at(arg, i) else None
        if op is C.SUBPATTERN:
            group, add, drop, sub = arg
            if add or drop:
                raise Unsupported("inline flags in a regular expression")
            done = lambda j, h: nxt(j, {**h, group: (i, j)} if group is not None else h)  # noqa: E731
            return self.seq(list(sub), 0, i, g, done)
        if op is C.BRANCH:
            for sub in arg[1]:
                r = self.seq(list(sub), 0, i, g, nxt)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = arg
            return self.repeat(list(sub), lo, hi, op is C.MAX_REPEAT, 0, i, g, nxt)
        if op in (C.ASSERT, C.ASSERT_NOT) and arg[0] == 1:
            r = self.seq(list(arg[1]), 0, i, g, lambda j, h: (j, h))
            if (r is not None) == (op is C.ASSERT):
                return nxt(i, r[1] if op is C.ASSERT else g)
            return None
        raise Unsupported(f"{op} in a regular expression")

    def repeat(self, sub, lo, hi, greedy, n, i, g, cont):
        def more():
            if hi is not C.MAXREPEAT and n >= hi:
                return None
            return self.seq(sub, 0, i, g, lambda j, h: None if j == i and n >= lo else self.repeat(sub, lo, hi, greedy, n + 1, j, h, cont))

        if n < lo:
            return more()
        if greedy:
            r = more()
            return r if r is not None else cont(i, g)
        r = cont(i, g)
        return r if r is not None else more()

    def at(self, where, i):
        n = len(self.v)
        multi = self.flags & re.MULTILINE
        if where is C.AT_BEGINNING:
            return i == 0 or bool(multi and self.v[i - 1] == 10)
        if where is C.AT_BEGINNING_STRING:
            return i == 0
        if where is C.AT_END:
            if i == n:
                return True
            if multi or i == n - 1:
                return bool(self.v[i] == 10)
            return False
        if where is C.AT_END_STRING:
            return i == n
        if where in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            word = _compile(C.IN, [(C.CATEGORY, C.CATEGORY_WORD)], self.flags, self.text)
            a = i > 0 and self.chars(self.v[i - 1], word)
            b = i < n and self.chars(self.v[i], word)
            return (a != b) == (where is C.AT_BOUNDARY)
        raise Unsupported(f"{where} in a regular expression")


def _compile(op, arg, flags, text):
    """A compiled one-character pattern."""
    state = re._parser.State()
    state.flags = flags
    state.str = "" if text else b""
    sub = re._parser.SubPattern(state, [(op, arg)])
    return re._compiler._sre.compile("" if text else b"", flags, re._compiler._code(sub, flags), 0, {}, (None,))


class SymMatch:
    def __init__(self, pattern, s, start, end, groups):
        self.re, self.string = pattern, s
        self._v, self._text = codes(s), is_text(s)
        self._span = {0: (start, end), **groups}

    def _one(self, k):
        if isinstance(k, str):
            k = self.re.groupindex[k]
        if k > self.re.groups:
            raise IndexError("no such group")
        return self._span.get(k, (-1, -1))

    def span(self, k=0):
        return self._one(k)

    def start(self, k=0):
        return self._one(k)[0]

    def end(self, k=0):
        return self._one(k)[1]

    def _get(self, k, default=None):
        a, b = self._one(k)
        return default if a < 0 else wrap(self._v[a:b], self._text)

    def group(self, *ks):
        if len(ks) <= 1:
            return self._get(ks[0] if ks else 0)
        return tuple(self._get(k) for k in ks)

    __getitem__ = _get

    def groups(self, default=None):
        return tuple(self._get(k, default) for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._get(k, default) for n, k in self.re.groupindex.items()}


def compile_(p, flags=0):
    return p if isinstance(p, re.Pattern) else re.compile(p, flags)


def match(p, s, pos=0):
    r = Matcher(p, s).run(pos)
    return None if r is None else SymMatch(p, s, pos, *r)


def fullmatch(p, s):
    m = Matcher(p, s)
    r = m.seq(list(m.tree), 0, 0, {}, lambda i, g: (i, g) if i == len(m.v) else None)
    return None if r is None else SymMatch(p, s, 0, *r)


def finditer(p, s):
    m = Matcher(p, s)
    i, last = 0, -1
    while i <= len(m.v):
        r = m.run(i)
        if r is None or (r[0] == i == last):
            i += 1
            continue
        yield SymMatch(p, s, i, *r)
        last = r[0]
        i = r[0] if r[0] > i else i + 1


def search(p, s, pos=0):
    m = Matcher(p, s)
    for i in range(pos, len(m.v) + 1):
        r = m.run(i)
        if r is not None:
            return SymMatch(p, s, i, *r)
    return None


def findall(p, s):
    out = []
    for m in finditer(p, s):
        g = m.groups(wrap([], is_text(s)) or "")
        out.append(m.group() if not g else g[0] if len(g) == 1 else g)
    return out


def sub(p, repl, s, count=0):
    v, out, at, n = codes(s), [], 0, 0
    for m in finditer(p, s):
        if count and n >= count:
            break
        n += 1
        a, b = m.span()
        out += v[at:a]
        if callable(repl):
            out += codes(repl(m))
        else:
            if ("\\" if is_text(repl) else 92) in repl:
                raise Unsupported("template in a substitution on symbolic text")
            out += codes(repl)
        at = b
    return wrap(out + v[at:], is_text(s))


def split(p, s, maxsplit=0):
    v, out, at, n = codes(s), [], 0, 0
    for m in finditer(p, s):
        if maxsplit and n >= maxsplit:
            break
        n += 1
        a, b = m.span()
        out.append(wrap(v[at:a], is_text(s)))
        out.extend(m.groups())
        at = b
    out.append(wrap(v[at:], is_text(s)))
    return out


METHODS = {"match": match, "fullmatch": fullmatch, "search": search, "finditer": finditer, "findall": findall, "split": split}


def method(pattern, name, a, k):
    if name == "sub":
        return sub(pattern, *a, **k)
    if name in METHODS:
        r = METHODS[name](pattern, *a, **k)
        return r
    return None


def function(name, pattern, *a, flags=0, **k):
    """``re.name(pattern, ...)``."""
    limit = {"match": 1, "fullmatch": 1, "search": 1, "finditer": 1, "findall": 1, "split": 2, "sub": 3}[name]
    if len(a) > limit:
        flags, a = a[limit], a[:limit]
    return method(compile_(pattern, flags), name, a, k)


# -- ast.literal_eval ----------------------------------------------------------------------


class _Literal:
    """Strings, decimal integers and lists with symbolic characters; anything else is tried value by value."""

    def __init__(self, s, number):
        self.v, self.i, self.number = s.v, 0, number
        self.s = s

    class Give(Exception):
        pass

    def at(self, chars):
        return self.i < len(self.v) and bool(or_(*(self.v[self.i] == ord(c) for c in chars)))

    def space(self, lines):
        while self.i < len(self.v):
            if self.at(" \t\f" + ("\n" if lines else "")):
                self.i += 1
            elif self.at("#"):
                while self.i < len(self.v) and not self.at("\n"):
                    self.i += 1
                if not lines:
                    return
            else:
                return

    def value(self):
        if self.at("\"'"):
            q = self.v[self.i]
            if isinstance(q, SymInt):
                q = 34 if q == 34 else 39
            out = []
            self.i += 1
            while True:
                if self.i >= len(self.v) or self.at("\n\r"):
                    raise SyntaxError("unterminated string literal")
                c = self.v[self.i]
                if bool(c == 0):
                    raise SyntaxError("source code string cannot contain null bytes")
                if bool(c == q):
                    self.i += 1
                    break
                if bool(c == 92):
                    self.i += 1
                    if self.i >= len(self.v):
                        raise SyntaxError("unterminated string literal")
                    e = self.v[self.i]
                    for ch, to in (("\\", 92), ('"', 34), ("'", 39), ("n", 10), ("t", 9), ("r", 13), ("a", 7), ("b", 8), ("f", 12), ("v", 11)):
                        if bool(e == ord(ch)):
                            out.append(to)
                            break
                    else:
                        if bool(or_(*(e == ord(x) for x in "xuUN01234567\n\r"))):
                            raise self.Give
                        out += [92, e]
                    self.i += 1
                    continue
                out.append(c)
                self.i += 1
            if not out and self.at(chr(q)):
                raise self.Give
            return simplify_str(SymStr(out))
        if self.at("["):
            self.i += 1
            out = []
            while True:
                self.space(True)
                if self.at("]"):
                    self.i += 1
                    return out
                if out and not comma:
                    raise SyntaxError("invalid syntax")
                out.append(self.value())
                self.space(True)
                comma = self.at(",")
                if comma:
                    self.i += 1
        neg = False
        if self.at("-"):
            neg = True
            self.i += 1
        if self.at("123456789"):
            digits = []
            while self.at("0123456789"):
                digits.append(self.v[self.i])
                self.i += 1
            if self.i < len(self.v) and not self.at(" \t\f\n,]#"):
                raise self.Give
            if all(isinstance(d, int) for d in digits):
                n = self.number("".join(map(chr, digits)))
            else:
                n = 0
                for d in digits:
                    n = n * 10 + (d - 48)
            return -n if neg else n
        raise self.Give

    def run(self):
        try:
            while self.at(" \t"):
                self.i += 1
            r = self.value()
            self.space(False)
            if self.i != len(self.v):
                raise self.Give
            return r
        except self.Give:
            return None


def literal_eval(s, numerals):
    def number(text):
        v = numerals.get(text)
        return int(text) if v is None else v

    def swap(x):
        if isinstance(x, bool):
            return x
        if isinstance(x, int):
            v = numerals.get(str(x)) if x >= 0 else numerals.get(str(-x))
            return x if v is None else v if x >= 0 else -v
        if isinstance(x, list):
            return [swap(y) for y in x]
        if isinstance(x, tuple):
            return tuple(swap(y) for y in x)
        if isinstance(x, dict):
            return {swap(k): swap(v) for k, v in x.items()}
        return x

    if isinstance(s, SymStr):
        r = _Literal(s, number).run()
        if r is not None:
            return r
        s = concrete(s)
    return swap(ast.literal_eval(s))
